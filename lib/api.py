"""Roots and classification of external functions, shared by the effect rules."""
import re
import vp

def api_roots(g):
    """Everything a user can call: the C interface and the JSON parser. File loading (io) serves the command-line
    program only and is covered separately."""
    c = [n for n, x in g.f.items() if n.startswith("ulight_") and not x["decl"]]
    j = [n for n, x in g.f.items() if x["demangled"].startswith("ulight::parse_json(") and not x["decl"]]
    if len(c) < 15 or not j:
        raise vp.Broken("API roots not found: %d C functions, %d JSON entry points" % (len(c), len(j)))
    return c, j

ALLOC = re.compile(r"^(malloc|calloc|realloc|reallocarray|free|aligned_alloc|posix_memalign|memalign|valloc|strdup|strndup|"
                   r"_Znw.*|_Zna.*|_Zdl.*|_Zda.*|_ZNSt3pmr20get_default_resourceEv|_ZNSt3pmr19new_delete_resourceEv|"
                   r"_ZNSt3pmr.*(pool_resource|monotonic_buffer).*|_ZNSt7__cxx1112basic_string.*|_ZNSt15__exception_ptr.*make.*|mmap|sbrk|alloca)$")

def is_alloc(n):
    return bool(ALLOC.match(n))

# C functions whose result or effect depends on something other than their arguments.
IMPURE_C = re.compile(r"^(time|clock|clock_gettime|gettimeofday|times|localtime.*|gmtime.*|mktime|strftime.*|ctime.*|asctime.*|getenv|secure_getenv|setenv|putenv|environ|"
                      r"rand|srand|rand_r|random|srandom|[dejlmn]rand48|srand48|arc4random.*|getrandom|getentropy|"
                      r"setlocale|localeconv|nl_langinfo.*|newlocale|uselocale|"
                      r"is(alnum|alpha|ascii|blank|cntrl|digit|graph|lower|print|punct|space|upper|xdigit)(_l)?|isw.*|tow(upper|lower).*|to(upper|lower)|__ctype_.*|"
                      r"strto(d|f|ld|l|ll|ul|ull|imax|umax|k).*|__isoc\w*_(strto\w*|s?scanf|\w*scanf)|ato(f|i|l|ll)|strcoll.*|strxfrm.*|strerror.*|strsignal|"
                      r"\w*printf(_chk)?|\w*scanf|mb\w+|wc\w+|c8rtomb|mbrtoc8|c16rtomb|c32rtomb|mbrtoc16|mbrtoc32|btowc|wctob|"
                      r"f(open|close|read|write|gets|getc|puts|putc|seek|tell|eof|error|flush|reopen|dopen)\w*|tmpfile|tmpnam|remove|rename|open(at)?(64)?|close|read|write|pread|pwrite|lseek|"
                      r"stat|fstat|lstat|access|puts|putchar|getchar|getc|putc|gets|perror|"
                      r"getpid|gettid|pthread_\w+|getuid|gethostname|uname|sysconf|sched_\w+|sleep|usleep|nanosleep|signal|raise|sigaction|system|popen|exec\w*|fork|"
                      r"getcwd|chdir|strtok|qsort_r|errno|getauxval|dlopen|dlsym)$")
IMPURE_CXX = re.compile(r"std::(chrono|random_device|locale|__cxx11::\w*(num_get|num_put|time_get|collate)|ctype|codecvt|this_thread|thread|filesystem|basic_[io]?f?stream|basic_ostream|basic_istream|"
                        r"basic_ios|ios_base|basic_filebuf|basic_streambuf|mutex|condition_variable|__basic_file|stod|stof|stoi|get_terminate|set_terminate|set_new_handler|get_new_handler|"
                        r"rand|time|clock|getenv|toupper|tolower|isalpha|pmr::set_default_resource|pmr::get_default_resource|random_shuffle|uncaught_exception)")

def impure(n, demangled):
    return bool(IMPURE_C.match(n)) or bool(IMPURE_CXX.search(demangled.split("(")[0]))

def chain(g, roots, target):
    """A shortest call chain from a root to the target."""
    prev = {r: None for r in roots}
    work = list(roots)
    for v in work:
        if v == target:
            break
        for w in g.edges.get(v, ()):
            if w not in prev:
                prev[w] = v; work.append(w)
    out, v = [], target
    while v is not None and v in prev:
        out.append(v); v = prev[v]
    names = [g.f[x]["demangled"].replace("(anonymous namespace)::", "") if x in g.f else x for x in out[::-1]]
    return " -> ".join(re.sub(r"\(.*", "", re.sub(r"<.*?>", "", x)) for x in names)
