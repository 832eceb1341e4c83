// C08: the staging buffer between a logging thread and the background thread.
#define NL_RUNTIME
#define NL_GENERATED_STUBS
#include "nl.h"
typedef RuntimeLogger::StagingBuffer SB;
namespace {
const uint64_t CAP = NanoLogConfig::STAGING_BUFFER_SIZE;
typedef std::conditional<(CAP <= 256), uint8_t, uint32_t>::type Size;
SB* sb;
struct Seg { char* at; uint64_t n; };
Seg q[16]; int nq;                 // published, in order
int head; uint64_t off;            // consumed: segments before head, and 'off' bytes of it
bool ended;                        // the logging thread is gone
int moved;                         // progress counter
bool empty() { return head == nq; }
// [p, p+n) must not touch anything published and not consumed
void noOverlap(char* p, uint64_t n) {
    for (int i = head; i < nq; i++) {
        char* a = q[i].at + (i == head ? off : 0); char* b = q[i].at + q[i].n;
        sym_check((a >= b) | (p >= b) | (p + n <= a), "space handed to the logging thread overlaps bytes not yet consumed");
    }
}
void publish(uint64_t n, bool wait = true) {
    char* p = wait || n < sb->minFreeSpace ? sb->reserveProducerSpace(n) : sb->reserveSpaceInternal(n, false);
    if (!p) { sym_check(!empty(), "no space although everything is consumed"); sym_stop(); }
    sym_check((p >= sb->storage) & (p + n <= sb->storage + CAP), "space handed to the logging thread is outside the buffer");
    noOverlap(p, n);
    q[nq].at = p; q[nq].n = n; nq++;
    sb->finishReservation(n); moved++;
}
// One peek; consumes an arbitrary part of what is shown. Returns the number of bytes shown.
uint64_t take(int how) {
    uint64_t n = 0; char* p = sb->peek(&n);
    if (n == 0) return 0;
    // walk the published bytes
    sym_check(!empty(), "bytes are shown that were never published or are consumed already");
    int i = head; char* a = q[i].at + off; uint64_t left = q[i].n - off;
    sym_check(p == a, "the bytes shown are not the next ones published");
    uint64_t seen = left;
    while (seen < n) {
        i++;
        sym_check(i < nq, "unpublished bytes are shown");
        sym_check(q[i].at == a + seen, "the bytes shown are not the next ones published");
        seen += q[i].n;
    }
    sym_check(seen == n, "part of a message is shown");
    uint64_t m = n;
    if (how == 1) { m = symi<Size>("consume"); sym_assume(m <= n); }
    else if (how == 2) m = left;       // one message
    uint64_t r = m;
    while (r > 0) { uint64_t l = q[head].n - off; if (r < l) { off += r; r = 0; } else { r -= l; head++; off = 0; } }
    if (m) moved++;
    sb->consume(m);
    return n;
}
uint64_t size(const char* nm) { uint64_t n = symi<Size>(nm); sym_assume(n >= 1 && n <= CAP / 2 - 1); return n; }
void mayDelete() {
    if (sb->checkCanDelete()) {
        sym_check(ended, "the buffer of a live thread is reclaimed");
        sym_check(empty(), "a buffer with unconsumed bytes is reclaimed");
    }
}
int msgs; bool producerGone;
void producer(void*) {
    RuntimeLogger::stagingBuffer = sb;
    for (int i = 0; i < msgs; i++) publish(size("size"));
    ended = true;
    { RuntimeLogger::StagingBufferDestroyer d; d.stagingBufferCreated(); }
    producerGone = true;
}
}
// params: 0 steps before the threads start (base 4: 1 publish, 2 consume all, 3 consume some), 1 messages logged
// concurrently, 2 rounds of the background thread before it drains, 3 how it consumes
extern "C" void c08_spsc() {
    int64_t pre = sym_param(0); msgs = (int)sym_param(1); int rounds = (int)sym_param(2), how = (int)sym_param(3);
    sb = new SB(7);
    sym_check(sb->getId() == 7, "identity of the buffer");
    for (; pre; pre /= 4) {
        if (pre % 4 == 1) publish(size("before"), false);
        else if (pre % 4 == 2) { while (take(0)) {} sym_check(empty(), "published bytes are never shown"); }
        else take(1);
        mayDelete();
    }
    sym_shared(&sb->producerPos, sizeof(char*)); sym_shared(&sb->endOfRecordedSpace, sizeof(char*)); sym_shared((void*)&sb->consumerPos, sizeof(char*));
    sym_shared(&sb->minFreeSpace, sizeof(uint64_t)); sym_shared(&sb->shouldDeallocate, sizeof(bool));
    sym_thread_create(producer, nullptr);
    sym_threads_on(1);
    for (int i = 0; i < rounds; i++) { take(how); mayDelete(); }
    for (int idle = 0, last = moved; !producerGone || !empty(); ) {
        bool gone = producerGone;
        uint64_t n = take(0);
        mayDelete();
        if (moved != last) idle = 0, last = moved;
        else sym_check(++idle < 6, gone ? "published bytes are never shown" : "the logging thread never gets space although everything is consumed");
        if (!n) sym_pass();
    }
    sym_check(sb->checkCanDelete(), "the empty buffer of an ended thread is never reclaimed");
    sym_reach("drained");
}
// The calls themselves, without interleaving, for longer histories.
extern "C" void c08_seq() {
    int64_t ops = sym_param(0);
    sb = new SB(3);
    for (; ops; ops /= 4) {
        if (ops % 4 == 1) {
            uint64_t n = size("size");
            char* p = n < sb->minFreeSpace ? sb->reserveProducerSpace(n) : sb->reserveSpaceInternal(n, false);
            if (!p) { sym_check(!empty(), "no space although everything is consumed"); continue; }
            sym_check((p >= sb->storage) & (p + n <= sb->storage + CAP), "space handed to the logging thread is outside the buffer");
            noOverlap(p, n); q[nq].at = p; q[nq].n = n; nq++; sb->finishReservation(n);
        } else take(ops % 4 == 2 ? 0 : 1);
        mayDelete();
    }
    for (int i = 0; i < 3; i++) take(0);
    sym_check(empty(), "published bytes are never shown");
    sym_reach("sequence");
}
