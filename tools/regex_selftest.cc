// Prints the outcome of many regex searches and matches. Built twice, with the real <regex> and with the stand-in
// of harness/fakeinc; tools/selftest.sh compares the outputs. (Not a check of its own: it validates the stand-in.)
#include <cstdio>
#include <cstring>
#include <regex>
#include <string>
static unsigned long s = 88172645463325252UL;
static unsigned rnd(unsigned n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)((s >> 20) % n); }
static std::string pick(const char* const* l, int n) { return l[rnd(n)]; }
int main() {
    static const char* fixed[] = {
        "^%([-+ #0]+)?([\\d]+|\\*)?(\\.(\\*|\\d*))?(hh|h|l|ll|j|z|Z|t|L)?([diuoxXfFeEgGaAcspn])",
        "^%([-+ #0]+)?([\\d]+|\\*)?(\\.(\\d+|\\*))?(hh|h|l|ll|j|z|Z|t|L)?([diuoxXfFeEgGaAcspn])",
        "^%([-+ #0]*)(\\d{1,3}|\\*)?(?:\\.(\\*|\\d*))?(h{1,2}|l{1,2}|[jzZtL])?([a-zA-Z])", "%%|%[^%]", "(a|ab)(c|bcd)(d*)", "x*?y+?", "[^-0-9]+$"};
    static const char* fc[] = {"%", "%", "-", "+", " ", "#", "0", "1", "25", "*", ".", "h", "hh", "l", "ll", "j", "z", "Z", "t", "L", "d", "i", "u", "x", "s", "c", "p", "f", "n", "q", "\\", "ab", "bcd", "y"};
    static const char* atoms[] = {"a", "b", "%", "[ab]", "[^a]", "\\d", "\\*", ".", "(a)", "(a|b)", "(?:ab)", "(b*)", "[0-9]"};
    static const char* quant[] = {"", "", "", "*", "+", "?", "*?", "{1,2}", "{2}"};
    for (int it = 0; it < 20000; it++) {
        std::string re, text;
        if (it % 2 == 0) { re = fixed[rnd(7)]; if (rnd(4)) text = "%"; int n = rnd(8); for (int i = 0; i < n; i++) text += pick(fc, 34); }
        else { if (rnd(3) == 0) re = "^"; int n = 1 + rnd(4); for (int i = 0; i < n; i++) re += pick(atoms, 13) + pick(quant, 9); if (rnd(5) == 0) re += "$"; n = rnd(7); for (int i = 0; i < n; i++) text += "ab%01*"[rnd(6)]; }
        std::regex r(re); std::cmatch m;
        for (int full = 0; full < 2; full++) {
            bool ok = full ? std::regex_match(text.c_str(), m, r) : std::regex_search(text.c_str(), m, r);
            printf("%d:%d:%d", it, full, ok);
            if (ok) { printf(" @%ld+%ld", (long)m.position(), (long)m.length()); for (size_t i = 0; i < m.size(); i++) printf(" [%d:%s]", (int)m[i].matched, m[i].str().c_str()); }
            printf(" /%s/ '%s'\n", re.c_str(), text.c_str());
        }
    }
}
