// Native counterpart of sink.h.
#include "sink.h"
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
struct NS { char* buf; size_t len; std::string copy; };
static std::map<FILE*, NS*> sinks;
extern "C" {
FILE* sink_open(void) { NS* s = new NS(); FILE* f = open_memstream(&s->buf, &s->len); sinks[f] = s; return f; }
size_t sink_size(FILE* f) { fflush(f); return sinks[f]->len; }
const unsigned char* sink_data(FILE* f) { fflush(f); return (const unsigned char*)sinks[f]->buf; }
void sink_close(FILE* f) { fclose(f); sinks.erase(f); }
void sink_clear(FILE* f) { fflush(f); rewind(f); }
long sink_find(FILE* f, size_t from, const char* t) { size_t n = sink_size(f), l = strlen(t); const unsigned char* d = sink_data(f); for (size_t p = from; p + l <= n; p++) if (!memcmp(d + p, t, l)) return (long)p; return -1; }
size_t sink_textlen(const char* t) { return strlen(t); }
void mfile_set(const char* name, const char* data, size_t len) { FILE* f = fopen(name, "wb"); fwrite(data, 1, len, f); fclose(f); }
}
#include <ctime>
extern "C" int sink_time(FILE* f, size_t from, int64_t* sec, int64_t* nano) {
    std::string s((const char*)sink_data(f) + from, sink_size(f) - from);
    size_t b = 0; while (b < s.size() && (s[b] == '\r' || s[b] == '\n')) b++;
    struct tm t; memset(&t, 0, sizeof t); int used = 0; int d = 0;
    if (sscanf(s.c_str() + b, "%d-%d-%d %d:%d:%d.%n", &t.tm_year, &t.tm_mon, &t.tm_mday, &t.tm_hour, &t.tm_min, &t.tm_sec, &used) != 6 || !used) return 0;
    t.tm_year -= 1900; t.tm_mon--; t.tm_isdst = -1; *sec = mktime(&t); *nano = 0;
    const char* p = s.c_str() + b + used; while (p[d] >= '0' && p[d] <= '9') *nano = *nano * 10 + (p[d++] - '0');
    return d == 9;
}
