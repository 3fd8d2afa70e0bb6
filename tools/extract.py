"""The C code that the instrumenter inserts, taken from the Lisp sources.

A small reader for Lisp forms evaluates the string constants; the pieces are
then recognised by what they contain, not by their names.
"""
import os, re


class Str(str):
    pass


class Sym(str):
    pass


def read_forms(text):
    """Nested lists of Str, Sym."""
    i, n = 0, len(text)
    stack, top = [], []
    cur = top
    while i < n:
        c = text[i]
        if c in " \t\r\n\f":
            i += 1
        elif c == ";":
            while i < n and text[i] != "\n":
                i += 1
        elif text.startswith("#|", i):
            d, i = 1, i + 2
            while i < n and d:
                if text.startswith("|#", i):
                    d, i = d - 1, i + 2
                elif text.startswith("#|", i):
                    d, i = d + 1, i + 2
                else:
                    i += 1
        elif text.startswith("#\\", i):
            j = i + 3
            while j < n and (text[j].isalnum() or text[j] in "-_"):
                j += 1
            cur.append(Sym(text[i:j]))
            i = j
        elif c == '"':
            out, i = [], i + 1
            while i < n and text[i] != '"':
                if text[i] == "\\":
                    i += 1
                out.append(text[i])
                i += 1
            i += 1
            cur.append(Str("".join(out)))
        elif c in "([{«":
            new = []
            cur.append(new)
            stack.append(cur)
            cur = new
            i += 1
        elif c in ")]}»":
            if stack:
                cur = stack.pop()
            i += 1
        elif c in "'`,@":
            i += 1
        elif c == "|":
            j = text.find("|", i + 1)
            cur.append(Sym(text[i:j + 1]))
            i = j + 1
        else:
            j = i
            while j < n and text[j] not in " \t\r\n\f()[]{}«»\";'`,":
                j += 1
            if j == i:
                j += 1
            cur.append(Sym(text[i:j].lower()))
            i = j
    return top


def base(sym):
    return sym.split(":")[-1]


def lisp_format(fmt, args):
    out, i, args = [], 0, list(args)
    while i < len(fmt):
        if fmt[i] == "~" and i + 1 < len(fmt):
            d = fmt[i + 1].lower()
            if d in "ads":
                out.append(str(args.pop(0)))
            elif d == "%":
                out.append("\n")
            elif d == "~":
                out.append("~")
            elif d == "\n":
                i += 2
                while i < len(fmt) and fmt[i] in " \t\n":
                    i += 1
                continue
            else:
                raise ValueError("format directive ~" + d)
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return "".join(out)


DEFS = {"defconst", "defconstant", "defparameter", "defvar", "define-constant", "defconst+", "def"}
JOIN = {"concatenate", "strcat", "string+", "concat", "string-append", "mapconcat"}


def evaluate(e, env):
    if isinstance(e, Str):
        return str(e)
    if isinstance(e, Sym):
        v = env.get(base(e))
        return evaluate(v, env) if v is not None else None
    if isinstance(e, list) and e and isinstance(e[0], Sym):
        h = base(e[0])
        rest = e[1:]
        if h in JOIN or h in ("format", "fmt"):
            if rest and isinstance(rest[0], Sym) and base(rest[0]) in ("string", "simple-string", "nil"):
                rest = rest[1:]
            vs = [evaluate(x, env) for x in rest]
            if any(v is None for v in vs):
                return None
            if h in JOIN:
                return "".join(vs)
            try:
                return lisp_format(vs[0], vs[1:])
            except (ValueError, IndexError):
                return None
        if h in ("progn", "eval-when", "the", "load-time-value", "coerce", "values"):
            for x in reversed(rest):
                v = evaluate(x, env)
                if v is not None:
                    return v
    return None


def walk(e):
    yield e
    if isinstance(e, list):
        for x in e:
            yield from walk(x)


def lisp_files(repo):
    for d in (repo, os.path.join(repo, "instrumentation")):
        for f in sorted(os.listdir(d)):
            if f.endswith(".lisp") and not f.startswith("test"):
                yield os.path.join(d, f)


class Missing(Exception):
    pass


def pieces(repo):
    """dict: forward, implementation, entry, init (with {..} marks), env."""
    env, forms = {}, []
    for p in lisp_files(repo):
        with open(p, encoding="utf-8", errors="replace") as f:
            forms += read_forms(f.read())
    for e in walk(forms):
        if isinstance(e, list) and len(e) >= 3 and isinstance(e[0], Sym) and base(e[0]) in DEFS and isinstance(e[1], Sym):
            env.setdefault(base(e[1]), e[2])
    consts = {}
    for k in env:
        v = evaluate(env[k], env)
        if v is not None:
            consts[k] = v
    got = {}

    def find(what, pred):
        c = [(k, v) for k, v in consts.items() if pred(v)]
        if not c:
            raise Missing("no constant with the %s" % what)
        return min(c, key=lambda kv: len(kv[1]))

    fn = r"\b%s\s*\([^;{]*\)\s*"
    names = ["__write_trace_header", "__write_trace_id", "__write_end_entry", "__write_trace_variables", "__write_trace_blobs", "__write_buffer_size"]
    got["forward"] = find("forward declarations", lambda v: all(re.search(fn % n + ";", v) for n in names) and "extern" in v)[1]
    got["implementation"] = find("implementation", lambda v: all(re.search(fn % n + r"\{", v) for n in names))[1]
    init_name, init = find("initialization", lambda v: "__bi_setup" in v and "~" in v)
    macro = re.search(r"#\s*ifdef\s+(\w+)", init)
    macro = macro.group(1) if macro else None
    got["entry"] = find("entry macro", lambda v: macro and re.search(r"#\s*define\s+%s\b" % macro, v))[1] if macro else ""
    order = ["env", "open", "names", "types", "n_names", "n_types"]
    for e in walk(forms):
        if isinstance(e, list) and len(e) == 8 and isinstance(e[0], Sym) and base(e[0]) in ("fmt",) and isinstance(e[1], Sym) and base(e[1]) == init_name:
            guess = []
            for a in e[2:]:
                t = repr(a)
                guess.append("env" if "handshake" in t else "n_names" if "count" in t and "names" in t else "n_types" if "count" in t and "types" in t
                             else "names" if "names" in t else "types" if "types" in t else "open")
            if sorted(guess) == sorted(order):
                order = guess
    got["init"] = lisp_format(init, ["\x01%s\x02" % o for o in order])
    got["env"] = next((v for k, v in consts.items() if "handshake" in k and re.match(r"\w+$", v)), "__SEL_HANDSHAKE_FILE")
    logs = re.findall(r"extern\s+void\s*\*\s*(\w+)\s*;", got["forward"])
    lock = [x for x in logs if "lock" in x]
    log = [x for x in logs if "lock" not in x]
    if len(lock) != 1 or len(log) != 1:
        raise Missing("no log and lock variables: %r" % logs)
    got["log"], got["lock"] = log[0], lock[0]
    return got


def c_string(s):
    out = []
    for line in s.split("\n"):
        out.append('"' + "".join(
            "\\%03o" % ord(ch) if ord(ch) < 32 or ord(ch) == 127 else ("\\" + ch if ch in '"\\' else ch) for ch in line) + '\\n"')
    return "\n".join(out)


CLASSES = "ildp"
BLOBS = list(range(1, 9)) + [12, 16, 17, 33, 64, 70, 130, 257]       # h_writer.cpp has the same numbers
YIELD = ["fwrite", "fputc", "fputs", "putc", "putc_unlocked", "fputc_unlocked", "fwrite_unlocked", "fputs_unlocked", "fflush", "fflush_unlocked",
         "fprintf", "write"]


def patterns():
    import itertools, random
    r = random.Random(7)
    ps = ["".join(p) for n in (1, 2, 3) for p in itertools.product(CLASSES, repeat=n)]
    for m in range(1, 16):
        cl = [c for i, c in enumerate(CLASSES) if m >> i & 1]
        for n in (4, 5, 7, 9, 14):
            ps.append("".join(r.choice(cl) for _ in range(n)))
    for m in (1, 2, 4, 8, 15, 15):
        cl = [c for i, c in enumerate(CLASSES) if m >> i & 1]
        for n in (20, 33, 64, 65, 128, 130, 256, 257):
            ps.append("".join(r.choice(cl) for _ in range(n)))
    return sorted(set(ps), key=lambda p: (len(p), p))


def prepare(repo, gen_dir):
    g = pieces(repo)
    with open(os.path.join(gen_dir, "writer_text.h"), "w") as f:
        for k in ("forward", "implementation", "entry", "init", "env", "log", "lock"):
            f.write("static const char WRITER_%s[] =\n%s;\n" % (k.upper(), c_string(g[k]) if k not in ("env", "log", "lock") else '"%s"' % g[k]))
        f.write("static const char *const WRITER_PATTERNS[] = { %s };\n" % ", ".join('"%s"' % p for p in patterns()))
    cases = []
    for k, p in enumerate(patterns()):
        args = "".join(", (int) a[%d].name, (int) a[%d].type, a[%d].size, (int) a[%d].format, a[%d].%s" % ((i,) * 5 + (c,)) for i, c in enumerate(p))
        cases.append("    case %d: __write_trace_variables(out, %d%s); break;" % (k, len(p), args))
    blobs = ["    case %d: __write_trace_blobs(out, %d%s); break;" % (
        n, n, "".join(", (int) a[%d].name, (int) a[%d].type, a[%d].size, (char *) a[%d].p" % ((i,) * 4) for i in range(n))) for n in BLOBS]
    for lang, ext in (("c", "c"), ("cxx", "cpp")):
        ex = 'extern "C" ' if lang == "cxx" else ""
        s = ["#include <pthread.h>", "#include <stdarg.h>", "#include <stddef.h>", "#include <stdint.h>", "#include <stdio.h>", "#include <stdlib.h>",
             "#include <string.h>", "#include <unistd.h>",
             ex + "void verif_point(void);"]
        s += ["#undef %s\n#define %s(...) (verif_point(), %s(__VA_ARGS__))" % (y, y, y) for y in YIELD]
        s += [g["forward"], g["implementation"],
              "struct VerifArg { uint32_t name, type; size_t size; int format; int i; int64_t l; double d; void *p; };",
              ex + "void %s_header(void *out, void *lock, const char **names, unsigned long n, const uint32_t *t, unsigned long nt) {" % lang,
              "    __trace_type_description *d = (__trace_type_description *) calloc(nt + 1, sizeof *d);",
              "    unsigned long i;",
              "    for (i = 0; i < nt; i++) { d[i].name_index = t[3 * i]; d[i].format = (enum __type_format) t[3 * i + 1]; d[i].size = t[3 * i + 2]; }",
              "    __write_trace_header(out, lock, names, n, nt ? d : NULL, nt);",
              "    free(d);", "}",
              ex + "void %s_id(void *out, void *lock, unsigned long long id) { __write_trace_id(out, lock, id); }" % lang,
              ex + "void %s_end(void *out, void *lock) { __write_end_entry(out, lock); }" % lang,
              ex + "void %s_size(void *out, void *a, unsigned long long n) { __write_buffer_size(out, a, n); }" % lang,
              ex + "void %s_vars(void *out, int pattern, const struct VerifArg *a) {\n    switch (pattern) {" % lang] + cases + ["    }\n}",
              ex + "void %s_blobs(void *out, int n, const struct VerifArg *a) {\n    switch (n) {" % lang] + blobs + ["    }\n}", ""]
        with open(os.path.join(gen_dir, "writer_%s.%s" % (lang, ext)), "w") as f:
            f.write("\n".join(s))


if __name__ == "__main__":
    import sys
    prepare(sys.argv[1], sys.argv[2])
