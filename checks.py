# What each check builds and runs. "runs": name, sanitizer build, executable target.
CHECKS = {}


def check(pid, rule, runs=None, **kw):
    CHECKS[pid] = dict(rule=rule, runs=runs or [dict(name="asan", san="asan", target=pid.lower())], **kw)


check("C01",
      "Random histories of frame push/pop (with and without result), local reference creation through seven routes, deletion, pinning "
      "and detach against a frame-stack model checked after every operation, on the main and on a second thread, plus deep nesting. "
      "Distinct: different sequences of (operation, frame depth).",
      needs=["live-checks", "death-checks", "underflows", "detach-checks", "deep-pops", "big frames"])

check("C02",
      "Random histories creating, using and deleting global, weak, local and C++ references to up to dozens of objects, each operation on one "
      "of three threads, against a model in which an object lives exactly while a strong reference exists, checked after every operation, "
      "also across detach and destruction of the machine; and random deletion orders of up to 40 references. Distinct: different "
      "sequences of (operation, thread, number of references).",
      needs=["strong-uses", "weak-live", "weak-dead", "deletions"])

check("C03",
      "Every function-table operation taking a reference (about 200 operation/argument sorts, all primitive types) run on identical fresh "
      "machines with each of seven kinds of reference (local, global, weak and references made from references) in every argument position "
      "and combinations, compared with the outcome for local references; and random populations of references compared pairwise before and "
      "after objects die. Distinct: (operation, kinds) combinations and populations.",
      needs=["comparisons", "pairs", "dead-weak"], min_distinct=500)

check("C04",
      "Random histories of class lookups through six routes (FindClass, ENV::GetClass, findClass, registration of C++ classes, mention in a "
      "descriptor, class of an instance) over colliding names (prefixes of each other, packages, inner classes, arrays, odd characters, other separators and delimiters) in both "
      "modes, against a name-to-class map; crowds of thousands of classes looked up in random orders. Distinct: different lookup sequences.",
      needs=["repeated-lookups", "unknown-null", "registrations", "instances", "resembling names", "lookups in crowds"])

check("C05",
      "Six class graphs of eleven classes (chain, tree, layered diamonds, three random DAGs drawn at compile time) registered in random order "
      "under random names, plus fake-jni classes: every pair of classes and objects of every class passed as every base type compared with the "
      "reflexive transitive closure. Distinct: graph and registration order.",
      needs=["assignability", "superclasses", "instance-checks", "questions while growing"])

check("C06",
      "Random histories of registrations, lookups and calls of instance and static methods, constructors, instance and static fields with "
      "colliding names and descriptors over hierarchies of eleven classes, in both modes, from two threads and through all reference kinds, against "
      "a model of member tables; every identifier obtained is also called or read. Also a chain of 48 classes and a class with 24 bases in random order of registration, and crowds of hundreds of members with resembling names. Distinct: sequences of (class, kind, descriptor, number of candidates).",
      needs=["own", "inherited", "null-lookups", "placeholders", "placeholders-filled", "replacements", "implementations", "crowd members", "deep and wide lookups", "members more than 20 levels above", "crowds: found", "crowds: calls"])

check("C07",
      "64 signatures drawn at compile time (24 parameter types, up to 16 parameters, 23 result types) hooked as lambdas, class/object aware "
      "lambdas, member functions and constructors; each call through one of five forms (argument array, va_list, variadic entry, C++ wrapper, Method::invoke), "
      "static, instance, non-virtual or constructor, with special and random values, references of every kind, from two threads and nested in "
      "one another; what the function saw and what the caller got is compared bit for bit. Distinct: (kind, form, descriptor).",
      needs=[k + " " + f for k in ("static", "instance", "nonvirtual", "constructor") for f in ("array", "va_list", "variadic", "variadic wrapper")] + ["nested", "static Method::invoke", "instance Method::invoke"],
      min_distinct=300)

check("C27",
      "28 signatures drawn at compile time hooked in random order as static and instance functions under few names, found under exactly the "
      "predicted descriptor and under none of hundreds of near misses, replaced and overloaded, then called; data members, static members, "
      "properties, getters and setters of 19 types; special shapes (free functions, const members, std::function, leading environment, class "
      "and object in every spelling, self-named classes, constructors); crowds of hundreds of members with resembling names. Distinct: descriptors and kinds.",
      needs=["publications", "replacements", "near-misses", "calls", "fields", "special", "crowds: found", "crowds: calls"], min_distinct=50)

check("C28",
      "Histories of some forty sorts of table operations on null references, classes, identifiers, strings and arrays in machines of four kinds, beside "
      "living references and pending exceptions; the answer must be null, zero, false or empty, and everything that the machine, its environment and its "
      "objects hold is printed before and after and must be equal. Null in every combination of arguments of functions of all spellings of reference "
      "parameters, null written to fields. Distinct: histories.",
      needs=["beside a pending exception", "fields set to null", "null arguments", "null for a value"] + ["op:" + o for o in
             "DeleteLocalRef|DeleteGlobalRef|DeleteWeakGlobalRef|PushLocalFrame, PopLocalFrame|ReleaseStringUTFChars|ReleaseStringChars|NewLocalRef|NewGlobalRef|NewWeakGlobalRef|IsSameObject|GetObjectRefType|IsInstanceOf of null|IsInstanceOf null class|IsAssignableFrom|GetStringLength|GetStringUTFLength|GetStringChars|GetStringUTFChars|NewStringUTF|NewString|GetArrayLength|GetArrayElements|GetPrimitiveArrayCritical|ToReflectedMethod|ToReflectedField|FromReflectedMethod|FromReflectedField|RegisterNatives|UnregisterNatives|GetJavaVM|ExceptionOccurred|NewObjectArray|calls through a null identifier|unimplemented methods of null|reads through a null identifier|writes through a null identifier|writes to null|empty method handle".split("|")], min_distinct=1000)

check("C29",
      "Histories of attaching, detaching, calling, replacing function tables (partly or wholly, by copies of original, current and foreign ones, with and without identity) "
      "and invocation tables on several machines with environments of their own kind and several threads, against a model of each table, of the environments alive "
      "and of references and pending exceptions. Distinct: histories.",
      needs=["attaches", "detaches", "tables replaced", "tables refused", "invocation tables replaced", "invocation tables refused", "original entries called", "replaced entries called", "machines destroyed"], min_distinct=300)

check("C08",
      "Random placements of implementations (lambdas, object-aware lambdas, member functions; four descriptors, two names) over hierarchies of "
      "eleven classes, growing during the history; instance and non-virtual calls on objects of every class, made and passed in several ways, with "
      "identifiers from every ancestor and references of every kind, compared with the most derived implementation (any of several unrelated ones in a "
      "diamond). Also a chain of 48 classes and a class with 24 bases in random order of registration. Distinct: placements.",
      needs=["virtual", "non-virtual", "inherited", "overridden", "non-virtual past an override", "unimplemented", "deep and wide calls", "implementations more than 20 levels above"])

check("C09",
      "Histories of function-table and native reads and writes over some hundred fields of 17 types (data members, static members, six shapes each of "
      "getters and setters, some read- or write-only, shadowed and inherited ones, shared names) of five objects of three classes, from two threads, "
      "against a value model; all other storage is compared after every step. Also a chain of 48 classes and a class with 24 bases in random order of registration, and crowds of hundreds of members with resembling names. Distinct: (field, operation) sequences.",
      needs=["writes", "ignored writes", "native writes", "reads", "default reads", "storage checks", "unregistered", "fields of deep and wide classes", "crowds: accesses"])

check("C10",
      "Histories on three threads of calls of all result types and call kinds, constructors and accessors throwing five shapes of C++ "
      "exceptions (directly or in nested calls), Throw, ThrowNew, clearing, describing, detaching and invoking from C++, against a model of the pending "
      "exception of each thread, checked on all threads after every step; what Method::invoke rethrows is compared with the original object. "
      "Distinct: (thread, operation) sequences.",
      needs=["throwing calls", "nested", "throwing accessors", "throws", "throw-news", "clears", "rethrown", "invoked", "detaches"])

check("C11",
      "Every UTF-16 unit alone and between boundary units, and random strings (seven styles, zero units, unpaired surrogates, up to thousands of units) "
      "made by NewString, NewStringUTF or native code, read in whole, critically, by in-range, empty, out-of-range and overflowing regions into exact heap "
      "blocks and guarded buffers, and as native strings, through every reference kind and from two threads, against an own modified UTF-8 codec; characters of several strings held at the same time and released in any order. "
      "Distinct: strings.",
      needs=["units", "whole reads", "regions", "bad regions", "native views", "held characters", "held at the same time"], min_distinct=5000)

check("C12",
      "Random histories over arrays of all eight primitive types (made by the table or native code, also over foreign storage) of up to thousands of "
      "elements: region reads and writes (in range, empty, out of range, overflowing), element pointers (also kept across other steps), critical pointers and "
      "native writes, through every reference kind and from two threads; after every step all arrays are compared with their model through every view. Direct "
      "buffers over poisoned, unmapped and arbitrary addresses. Distinct: histories and buffers.",
      needs=["arrays", "comparisons", "region writes", "region reads", "bad regions", "pointer writes", "pinned writes", "critical writes", "native writes", "buffer reads"],
      min_distinct=500)

check("C13",
      "Random acyclic graphs of objects of two class chains (four and two deep) and arrays of them, of fabricated classes and of arrays, made by the table or "
      "natively: stores and reads by the table and through native views of the element class and of every base (all assignment forms), of fitting and wrong "
      "objects, in and out of range, by all reference kinds, from two threads; after every step all elements are compared through all views, and exactly the "
      "objects reachable in the model are alive. Distinct: histories.",
      needs=["arrays", "native arrays", "bad initial elements", "stores", "rejected stores", "view stores", "rejected view stores", "out of range", "drops", "taken", "typed reads", "arrays of many classes", "big stores from C++", "big native elements"],
      min_distinct=300)

check("C14",
      "Stress: two to six threads enter up to three of five monitors (of strings, arrays, classes, buffers, throwables, objects) up to three times each by any "
      "reference kind, in seeded schedules (yields, sleeps), around plain shared data which ThreadSanitizer and ownership and counter checks watch. Scripted: one "
      "thread enters up to four times, others wait or work on everything else; who is inside after each exit is compared, and what must not block has a deadline. "
      "Run under ThreadSanitizer and AddressSanitizer. Distinct: counter outcomes and scripts.",
      runs=[dict(name="tsan", san="tsan", target="c14"), dict(name="asan", san="asan", target="c14")],
      needs=["stress entries", "waiting rounds", "independence rounds", "operations beside monitors", "depth 1", "depth 4"], min_distinct=60,
      technique="runtime monitoring: ThreadSanitizer and online ownership checks over stressed and scripted executions of the real library")

check("C15",
      "Histories of RegisterNatives (batches with repetitions, from temporary strings), UnregisterNatives and calls from C++ through fresh and earlier handles "
      "over fourteen signatures (all result types, up to 17 parameters) and eight functions each, few names, in four class graphs with a plain class, by "
      "all reference kinds and from two threads: which function ran, its environment, class or object, arguments and result against a table model; finally the "
      "whole table. Also a chain of 48 classes and a class with 24 bases in random order of registration, and crowds of hundreds of natives with resembling names, and handles of names which are hooked as static and instance functions "
      "and registered as natives at once. Distinct: histories.",
      needs=["handles: registrations", "handles of two methods", "handles of natives", "handles of natives looked up before", "handles: fabricated methods", "handles of instance methods", "handles of static methods", "empty handles", "registered", "replaced", "unregistered", "own", "inherited", "absent", "throwing", "earlier proxies", "other methods", "natives of deep and wide classes", "crowds: natives called"], min_distinct=200)

check("C16",
      "Identifiers of registered, inherited and fabricated methods, fields and constructors, static and instance, over three class graphs turned into "
      "reflection objects (declaring or derived class, right and wrong flag) and back by all reference kinds, at once or later, on either of two threads, "
      "then used; a dozen sorts of other objects; and crowds of members with resembling names. Distinct: histories.",
      needs=["method identifiers", "field identifiers", "method placeholders", "field placeholders", "constructor placeholders", "round trips", "kept reflections", "aliens", "crowds: reflected"],
      min_distinct=150)

check("C17",
      "Histories on four threads (and short-lived ones) of attaching by three routes, detaching, ending while attached (on fake-jni and baron machines), local references in frames, global and weak references, "
      "exceptions, function-table hooks of two entries and objects whose destructors use the machine, on plain, fake-jni and baron machines; after every step "
      "environment identity, machine, hook order, pending exceptions, references and the life of every object are compared with the model. Distinct: histories.",
      needs=["attaches", "repeated attaches", "detaches with references", "detaches with exception", "detaches of detached", "hooks", "throws", "global references",
             "short threads", "destructors using the machine", "ends of attached threads", "ends of attached threads in frames", "ends of attached threads in empty frames"], min_distinct=300)

check("C18",
      "Two to seven threads on one plain (both modes), fake-jni or baron machine mixing twenty sorts of operations (first lookups of shared names, calls, fields, "
      "all kinds of references incl. promotion against deletion, strings, arrays, natives, exceptions, attach and detach, reflection, monitors, hooks, defaults), "
      "with random delays at every lock operation of the library; results kept per thread and compared after joining; ThreadSanitizer watches races and lock "
      "order, a second build AddressSanitizer. Distinct: arrival orders of the threads (different interleavings).",
      runs=[dict(name="tsan", san="tsan", target="c18", shards=4), dict(name="asan", san="asan", target="c18", shards=4)],
      needs=["class lookups", "member lookups", "calls", "field accesses", "global references", "weak references", "promotions", "failed promotions", "strings",
             "arrays", "natives", "exceptions", "attaches", "hierarchy", "monitors", "first passes", "constructors", "defaults", "hooks", "identifiers compared"],
      min_distinct=100,
      technique="runtime monitoring: ThreadSanitizer and offline checks of per-thread logs over perturbed schedules of the real library")

check("C19",
      "Histories of attach and remove calls over fifteen names (paths, plain names, empty, dotted, unknown) on one or two machines (fake-jni, baron, baron "
      "with a denied class), with loader stand-ins of two sorts whose opens fail or whose entry points are missing, changing over time, entry points which "
      "use the machine and attach or remove others: entry point calls are compared with a model after every step, handle use (open, look up, close) with "
      "their state. Also with the real loader and copies of a real library. Distinct: histories.",
      needs=["loads", "unloads", "unloads at the end", "repeated attaches", "failed opens", "failed program opens", "attached", "attached statically", "ignored",
             "nested attaches", "nested removals", "removed", "real steps"], min_distinct=500)

check("C20",
      "Histories of deny rules (all combinations of given and empty parts, before and after the start, through both spellings), registrations and lookups of "
      "classes, methods, constructors and fields over three graphs of eleven C++ classes and six others with colliding names, from two threads and by all "
      "reference kinds: null, found or fabricated against a model, members of classes and classes of the machine counted around denied lookups. Distinct: histories.",
      needs=["class rules", "early rules", "registrations", "denied classes", "known denied classes", "known members", "denied registered members",
             "denied inherited members", "denied fabricated members", "denied members", "fabricated members", "used denied registered members"], min_distinct=300)

check("C21",
      "Descriptors drawn as random bytes, over the descriptor alphabet, as mutations of valid ones, as long repetitions (to 64 KiB) and as deeply nested names, in "
      "exactly sized memory: looked up as methods, constructors and fields of both kinds on fabricating, null returning and baron machines, called and accessed "
      "through the placeholder (arguments in exactly sized memory), and turned into wrapper code, under AddressSanitizer and UBSan, with results and other members "
      "compared. Distinct: descriptor texts.",
      needs=["malformed", "well-formed", "method placeholders", "field placeholders", "calls", "accesses", "generated", "dumps", "errors reported", "long", "nested", "object results"],
      min_distinct=20000)

check("C22",
      "Random usage of up to forty classes (nested to depth three, colliding names and packages, names of up to 200 characters, names resembling the library's own, up to 59 parameters) with up to 250 methods, constructors and fields of both kinds "
      "and natives is recorded; the dump in both dialects is compiled by clang++ (partly also by g++), linked against the library, its registration code run "
      "on a fresh machine which fabricates nothing, and everything looked up, constructed, called, read and written there under AddressSanitizer. Distinct: usages.",
      runs=[dict(name="jnivm", san="asan", target="c22"), dict(name="fake-jni", san="asan", target="c22", cmake=["-DJNIVM_USE_FAKE_JNI_CODEGEN=ON"])],
      needs=["classes", "inner classes", "methods", "smethods", "ctors", "fields", "sfields", "natives", "file dumps", "assembled dumps", "checked by g++", "compiled", "resolved", "called stubs",
             "classes named like those of the library", "long parameter lists"],
      min_distinct=30)
check("C23",
      "Random programs of JNI operations (each kind alone and mixtures) run in local frames of their own and are repeated 124 times on plain, Baron and FakeJni machines, with other threads "
      "attaching and detaching; instance counters must return to the same value after each repetition, the allocator's byte count must stop growing, and after destruction of the machine (with "
      "leftover references, frames, pending exceptions and attached threads in half of the cases) no tracked object, no class and no byte may remain; everything is done four times over. "
      "Further operations are repeated 800 times without frames, deleting the references one by one, and with names, texts and values never used before. Distinct: programs.",
      needs=["steady:plain machine", "steady:plain machine which returns null", "steady:Baron machine", "steady:FakeJni machine", "leftovers", "left attached", "machines leave no byte", "objects tracked", "repetitions without a frame",
             "single:new natives", "single:new texts", "single:new unknown names", "single:new libraries", "single:new threads"],
      min_distinct=500)
check("C24",
      "Tables of up to thirty entries drawn from 37 kinds of descriptor entries (member and static functions, const ones, ones which take an environment, fields, raw pointers, lambdas, constructors, all flags, refused ones) "
      "are registered for eight C++ classes with different bases, repeatedly, extended, on several threads and after earlier lookups on FakeJni and Baron machines; the published members are compared with the table exactly, "
      "looked up, used, and looked up as the other kind; instances come from six paths. Jvm::start is run with generated classes, decoys, arguments, exceptions, nesting and threads. Random nestings of LocalFrame, JniEnvContext, "
      "plain frames and threads (unwound by exceptions too) are compared with a model of what is attached and alive. Distinct: histories.",
      needs=["tables verified", "registered again", "hidden from the other kind", "refused entries", "constructed by NewObject", "createGlobalReference", "taken from an array", "started", "refused to start", "main threw", "nested start",
             "started on a detached thread", "createMainMethod", "LocalFrame(vm) attaches", "JniEnvContext(vm) attaches", "refused scopes", "unwound scopes", "threads left attached"],
      min_distinct=2500)
check("C25",
      "Calls in all nine forms, constructions in three and field accesses in four of members which nobody implemented (also null identifiers, and fields with only a getter or a setter), with random descriptors over registered "
      "classes with and without default constructor, classes registered later, classes nobody knows and arrays of all of them, on plain (both modes), Baron and FakeJni machines; results are judged by value, class, C++ type, "
      "construction counts, reference type and life time. Three builds: objects for reference results, null references, and the tracing build. Distinct: histories.",
      runs=[dict(name="objects", san="asan", target="c25"), dict(name="null", san="asan", target="c25", cmake=["-DJNIVM_ENABLE_RETURN_NON_ZERO=OFF"]),
            dict(name="trace", san="asan", target="c25", cmake=["-DJNIVM_ENABLE_TRACE=ON"])],
      needs=["object results", "primitive results", "default constructed", "dummies", "no default constructor", "arrays of primitives", "arrays of objects", "arrays of arrays", "constructors", "fields", "static fields",
             "ignored writes", "read-only fields", "write-only fields", "null identifiers", "null field identifiers", "void calls", "late registrations", "cases:default objects", "cases:null references"], min_distinct=5000)
check("C26",
      "Histories of steps on up to six machines (plain in both modes, Baron, FakeJni) which are created and destroyed on three threads in between, with the same C++ classes registered under names which mean other classes elsewhere: "
      "classes, functions, fields, natives, objects, references, exceptions, deny rules, table hooks, attached threads, monitors and back references of the machine are compared with a model of it after every step, "
      "class objects between machines, objects and classes after destruction. Then two to seven threads do so at the same time, each with up to three machines of its own, under AddressSanitizer and ThreadSanitizer. "
      "Machines are made where dead ones were, and classes of dead ones may be kept. Distinct: histories.",
      runs=[dict(name="asan", san="asan", target="c26"), dict(name="tsan", san="tsan", target="c26", shards=2)],
      needs=["classes kept of dead machines", "adopted objects", "attaches", "detaches", "calls", "fabricated calls", "classes not found", "members not found", "denied classes", "destroyed", "destroyed by any thread", "exceptions", "fields of nobody", "static fields",
             "global references", "hooks", "machines:Baron", "machines:FakeJni", "machines:null returning", "machines:plain", "monitors", "natives", "objects checked", "steps beside other machines", "strings and arrays",
             "cases:concurrent machines", "concurrent threads"], min_distinct=2000)

check("C30",
      "Seeded programs of 150 to 400 operations over the whole function table (lookups, hooks, calls in all forms, fields, natives, handles, strings, arrays, "
      "exceptions, references, frames, reflection, class queries, deny rules, a second thread; names with percent signs) on four kinds of machines write down "
      "everything they observe: results, effects, pending exceptions, and after every operation the numbers of local and global references, members and living "
      "objects. The same programs run in builds with different options, and the transcripts are compared. The null and malformed descriptor monitors run in the tracing build as well. "
      "Distinct: transcripts.",
      runs=[dict(name="default", san="asan", target="c30"),
            dict(name="trace", san="asan", target="c30", cmake=["-DJNIVM_ENABLE_TRACE=ON"]),
            dict(name="no-debug", san="asan", target="c30", cmake=["-DJNIVM_ENABLE_DEBUG=OFF"]),
            dict(name="fake-jni", san="asan", target="c30", cmake=["-DJNIVM_USE_FAKE_JNI_CODEGEN=ON", "-DJNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT=ON"]),
            dict(name="trace-null", san="asan", target="c28", cmake=["-DJNIVM_ENABLE_TRACE=ON"])],
      compare=True,
      needs=["transcripts compared", "machines: fabricating", "machines: null", "machines: FakeJni", "machines: Baron", "calls", "accesses", "lookups", "invocations", "strings", "arrays", "steps"],
      min_distinct=1000)
