"""Format strings and argument types used for the end-to-end harnesses (C03, C07)."""

# type key -> (C++ declaration of a symbolic argument, expression passed, mutation after the call)
INT_LEN = {"hh": ("signed char", "unsigned char"), "h": ("short", "unsigned short"), "": ("int", "unsigned int"),
           "l": ("long", "unsigned long"), "ll": ("long long", "unsigned long long"), "j": ("intmax_t", "uintmax_t"),
           "z": ("ssize_t", "size_t"), "t": ("ptrdiff_t", "ptrdiff_t")}


def cstr(s):
    out = ""
    for ch in s:
        o = ord(ch)
        if ch == '"': out += '\\"'
        elif ch == "\\": out += "\\\\"
        elif ch == "\n": out += "\\n"
        elif ch == "\t": out += "\\t"
        elif 32 <= o < 127: out += ch
        else: out += "\\%03o" % o
    return '"' + out + '"'


def cases(tier):
    """list of (format, [argument kind])"""
    c = []
    c += [("", []), ("plain text", []), ("100%% sure", []), ("%%", []), ("tail %%%d%% x", ["int"]), ("a\\b", []), ("quote \"q\"\t\n", [])]
    for l, (s, u) in INT_LEN.items():
        c.append(("v=%" + l + "d;", [s])); c.append(("%" + l + "i", [s]))
        for k in "uxXo":
            if tier == "thorough" or k == "ux"[len(l) % 2] or l in ("", "l"):
                c.append(("<%" + l + k + ">", [u]))
    c += [("%5d|%-5d|%05d|%+d|% d", ["int"] * 5), ("%#x %#o %#X", ["unsigned int"] * 3), ("%-+5d|", ["int"]), ("%+-6ld", ["long"]), ("%- d|%#010x", ["int", "unsigned int"]), ("%+ 05d", ["int"]), ("%.3d|%8.3d|%-8.3u", ["int", "int", "unsigned int"]),
          ("%*d", ["width", "int"]), ("%.*d", ["prec", "int"]), ("%*.*d", ["width", "prec", "int"]), ("%-*d|", ["width", "int"]), ("%+.*ld", ["prec", "long"]),
          ("%*d %*d", ["width", "int", "width", "int"]), ("%0*lx", ["width", "unsigned long"])]
    c += [("%c", ["char"]), ("%5c|%-3c", ["char", "char"]), ("[%lc]", ["wint_t"]), ("%*c", ["width", "char"])]
    c += [("%p", ["const void*"]), ("%p %p", ["void*", "int*"]), ("%p", ["chptr"]), ("%p", ["cchptr"]), ("%20p", ["const void*"])]
    for k in "fFeEgGaA":
        if tier == "thorough" or k in "feG":
            c.append(("d=%" + k, ["double"]))
    c += [("%lf", ["double"]), ("%.2f|%10.3f|%-10.1f|%+f|%#g", ["double"] * 5), ("%f", ["float"]), ("%.0f", ["double"]), ("%.f!", ["double"]),
          ("%*.*f", ["width", "prec", "double"]), ("%.*g", ["prec", "double"]), ("%Lf", ["long double"]), ("%.3Lg %Le", ["long double", "long double"]), ("%*Lf", ["width", "long double"])]
    c += [("%s", ["str"]), ("%s|%s", ["str", "cstr"]), ("%10s|", ["str"]), ("%-10s|", ["str"]), ("%.2s|", ["str"]), ("%.0s|", ["str"]), ("%.s|", ["str"]), ("%5.3s", ["str"]),
          ("%.*s|", ["prec", "str"]), ("%*s|", ["width", "str"]), ("%*.*s|", ["width", "prec", "str"]), ("%.3s", ["strn3"]), ("%.*s.", ["prec3", "strn3"]), ("%.0s:", ["strn0"]),
          ("%-5.1s|%s", ["str", "str"])]
    c += [("%ls", ["wstr"]), ("%.1ls|", ["wstr"]), ("%.*ls|", ["prec", "wstr"]), ("%4ls|%s", ["wstr", "str"]), ("%s|%ls|%d", ["str", "wlong", "int"]), ("%d %.30ls %ls", ["int", "wlong", "wlong"])]
    c += [("%s=%d", ["str", "int"]), ("%d:%s:%ld:%s", ["int", "str", "long", "str"]), ("%s %*d %.*s %p", ["str", "width", "int", "prec", "str", "const void*"]),
          ("%hhd%hd%d%ld", ["signed char", "short", "int", "long"]), ("%f %d %s %Lf", ["double", "int", "str", "long double"]), ("%d %d %d", ["int"] * 3),
          ("%s%s%s", ["str", "cstr", "str"]), ("%%%s%%%d%%", ["str", "int"]), ("\\%d", ["int"]), ("x\\\\%s", ["str"]), ("c:\\%s\\%d", ["str", "int"]),
          ("%d%%", ["int"]), ("%d|%i|%x", ["short", "signed char", "signed char"]), ("%hd %hhd", ["int", "int"]), ("%hhu %hx", ["unsigned int", "int"]), ("%c%c", ["int", "signed char"]), ("%s %% %d %%%%", ["str", "int"]), ("%u %u %u %u %u", ["unsigned char", "unsigned short", "unsigned int", "bool", "unsigned int"])]
    if tier == "thorough":
        import itertools
        for fl in ("-", "+", " ", "#", "0", "-+", "-0", "+ ", "#0", "- #"):
            for l, k, t in (("", "d", "int"), ("l", "x", "unsigned long"), ("", "f", "double"), ("", "s", "str"), ("ll", "o", "unsigned long long"), ("z", "u", "size_t")):
                if k in "d" and "#" in fl: continue
                if k in "xou" and ("+" in fl or " " in fl): continue
                if k == "u" and "#" in fl: continue
                if k == "s" and fl not in ("-",): continue
                c.append(("%" + fl + "12" + l + k, [t])); c.append(("%" + fl + "*.*" + l + k if not (k == "s" and "0" in fl) else "%*.*" + l + k, ["width", "prec", t]))
        kinds = [("%d", ["int"]), ("%s", ["str"]), ("%.2s", ["str"]), ("%ls", ["wstr"]), ("%.*s", ["prec", "str"]), ("%*d", ["width", "int"]), ("%f", ["double"]), ("%p", ["const void*"]), ("%hhu", ["unsigned char"])]
        for a, b in itertools.product(kinds, kinds):
            c.append(("%s,%s" % (a[0], b[0]), a[1] + b[1]))
    seen, out = set(), []
    for x in c:
        k = (x[0], tuple(x[1]))
        if k not in seen:
            seen.add(k); out.append(x)
    return out


def decl(kind, n):
    """(declaration, expression, code that overwrites the argument after the call)"""
    v = "a%d" % n
    if kind in ("str", "cstr"):
        d = "char* b%d = (char*)malloc(STRCAP + 1); sym_bytes(b%d, STRCAP, \"s%d\"); b%d[STRCAP] = 0; %schar* %s = b%d;" % (n, n, n, n, "const " if kind == "cstr" else "", v, n)
        return d, v, "memset(b%d, 'X', STRCAP);" % n
    if kind == "strn3":      # exactly three characters, not NUL-terminated: fine with a precision of 3 or less
        d = "char* b%d = (char*)malloc(3); sym_bytes(b%d, 3, \"s%d\"); const char* %s = b%d;" % (n, n, n, v, n)
        return d, v, "memset(b%d, 'X', 3);" % n
    if kind == "strn0":      # nothing may be read of it
        return "const char* %s = (const char*)malloc(1) + 1;" % v, v, ""
    if kind == "wstr":
        d = "wchar_t* b%d = (wchar_t*)malloc(4 * (WSTRCAP + 1)); sym_bytes(b%d, 4 * WSTRCAP, \"w%d\"); b%d[WSTRCAP] = 0; for (int i = 0; i < WSTRCAP; i++) sym_assume((unsigned)b%d[i] < 0xD800); const wchar_t* %s = b%d;" % (n, n, n, n, n, v, n)
        return d, v, "for (int i = 0; i < WSTRCAP; i++) b%d[i] = 'X';" % n
    if kind == "wlong":      # long enough for the vector loops of the C library (one symbolic character)
        d = "wchar_t* b%d = (wchar_t*)malloc(4 * 41); for (int i = 0; i < 40; i++) b%d[i] = 'a' + i %% 26; b%d[40] = 0; b%d[33] = sym<int32_t>(\"w%d\"); sym_assume((unsigned)b%d[33] < 0xD800 && b%d[33]); const wchar_t* %s = b%d;" % (n, n, n, n, n, n, n, v, n)
        return d, v, "for (int i = 0; i < 40; i++) b%d[i] = 'X';" % n
    if kind == "width":
        return "int %s = sym<int>(\"w%d\"); sym_assume(%s >= -300 && %s <= 300);" % (v, n, v, v), v, ""
    if kind == "prec":
        return "int %s = sym<int>(\"p%d\"); sym_assume(%s >= -300 && %s <= 300);" % (v, n, v, v), v, ""
    if kind == "prec3":
        return "int %s = sym<int>(\"p%d\"); sym_assume(%s >= 0 && %s <= 3);" % (v, n, v, v), v, ""
    if kind == "chptr":
        return "static char q%d[4]; char* %s = q%d + sym_choose(4, \"o%d\");" % (n, v, n, n), v, ""
    if kind == "cchptr":
        return "const char* %s = (const char*)sym<uint64_t>(\"c%d\");" % (v, n), v, ""
    if kind == "long double":
        return "long double %s; memset(&%s, 0, sizeof %s); sym_bytes(&%s, 10, \"L%d\"); sym_assume(okld(%s));" % (v, v, v, v, n, v), v, ""
    if kind == "wint_t":
        return "wint_t %s = sym<wint_t>(\"c%d\"); sym_assume(%s >= 1 && %s < 0xD800);" % (v, n, v, v), v, ""
    if kind == "bool":
        return "bool %s = sym<uint8_t>(\"b%d\") & 1;" % (v, n), v, ""
    if kind == "float":
        return "float %s = sym<float>(\"f%d\");" % (v, n), v, ""
    return "%s %s = (%s)sym<%s>(\"v%d\");" % (kind, v, kind, {"const void*": "uint64_t", "void*": "uint64_t", "int*": "uint64_t"}.get(kind, kind), n), v, ""


def expected(args):
    """arguments for the printf that yields the expected text: AddressSanitizer's printf reads a byte even for %.0s"""
    return "".join(', ""' if k == "strn0" else ", a%d" % n for n, k in enumerate(args))


# the same conversions in smaller formats: one path per length of each number, keep the product small
SPLIT = {"%5d|%-5d|%05d|%+d|% d": [("%5d|%-5d", ["int"] * 2), ("%05d|%+d", ["int"] * 2), ("% d", ["int"])],
         "%s %*d %.*s %p": [("%s %*d", ["str", "width", "int"]), ("%.*s %p", ["prec", "str", "const void*"])]}
