// @sources omniscidb/DataMgr/BufferMgr/BufferMgr.cpp omniscidb/DataMgr/BufferMgr/Buffer.cpp omniscidb/DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.cpp omniscidb/DataMgr/BufferMgr/CpuBufferMgr/CpuBuffer.cpp omniscidb/DataMgr/AbstractBuffer.cpp omniscidb/DataMgr/Encoder.cpp omniscidb/DataMgr/StringNoneEncoder.cpp omniscidb/IR/Type.cpp omniscidb/IR/Context.cpp omniscidb/IR/Datum.cpp omniscidb/Shared/misc.cpp omniscidb/Shared/DateTimeParser.cpp omniscidb/Shared/StringTransform.cpp
// @flags -I$VERIF/stubs/thr -I$VERIF/stubs/boostpred -include $VERIF/stubs/strm.h -include $VERIF/stubs/Logger/Logger.h -include $VERIF/stubs/pool/vfmutex.h
// @bounds pages of 2 bytes, slabs of 4 pages, a pool of 6 pages, 3 chunks of a slab at most; histories of 3 arbitrary operations and the listed shapes of up to 6; every allocation size up to one byte over a slab; all contents; a slab allocation or a fetch from the parent that fails at any of the requests
// @assume one thread (mutex and condition variable are stand-ins that report a lock nobody could release); the clock stands still; the parent level serves its bytes or throws
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBuffer.h"
#include "IR/Context.h"
#include "sym.h"
using namespace Buffer_Namespace;
namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return {}; } } }
enum { PAGE = 2, SLAB = 4, POOL = 6, CH = 3 };
static int8_t g_data[CH][SLAB * PAGE];  // what the chunks hold at the parent
static bool g_fail_slab, g_fail_fetch;
static ChunkKey key(int k) { return ChunkKey{1, k / 2, 7, k}; }
static int g_tokens;
static int8_t g_direct[PAGE];
struct Token : AbstractDataToken {
  size_t n;
  Token(size_t n) : n(n) { ++g_tokens; }
  ~Token() { --g_tokens; }
  const int8_t* getMemoryPtr() const override { return g_direct; }
  size_t getSize() const override { return n; }
  const hdk::ir::Type* getType() const override { return hdk::ir::Context::defaultCtx().int8(); }
};
struct Parent : AbstractBufferMgr {
  Parent() : AbstractBufferMgr(0) {}
  AbstractBuffer* createBuffer(const ChunkKey&, const size_t, const size_t) override { abort(); }
  AbstractBuffer* createZeroCopyBuffer(const ChunkKey&, std::unique_ptr<AbstractDataToken>) override { abort(); }
  void deleteBuffer(const ChunkKey&, const bool) override {}
  void deleteBuffersWithPrefix(const ChunkKey&, const bool) override {}
  AbstractBuffer* getBuffer(const ChunkKey&, const size_t) override { abort(); }
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& k, size_t n) override { return k[3] == CH ? std::make_unique<Token>(n) : nullptr; }
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  void fetchBuffer(const ChunkKey& k, AbstractBuffer* d, const size_t n) override {
    if (g_fail_fetch) throw OutOfMemory("no data");
    d->reserve(n);
    memcpy(d->getMemoryPtr() + d->size(), g_data[k[3]] + d->size(), n - d->size());
    d->setSize(n);
  }
  void getChunkMetadataVecForKeyPrefix(ChunkMetadataVector&, const ChunkKey&) override {}
  bool isBufferOnDevice(const ChunkKey&) override { return false; }
  std::string printSlabs() override { return ""; }
  size_t getMaxSize() override { return 0; }
  size_t getInUseSize() override { return 0; }
  size_t getAllocated() override { return 0; }
  bool isAllocationCapped() override { return false; }
  const DictDescriptor* getDictMetadata(int, bool) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
  AbstractBuffer* alloc(const size_t) override { abort(); }
  void free(AbstractBuffer*) override {}
  MgrType getMgrType() override { return FILE_MGR; }
  std::string getStringMgrType() override { return ""; }
  size_t getNumChunks() override { return 0; }
};
struct Pool : CpuBufferMgr {
  Pool(Parent* p) : CpuBufferMgr(0, POOL * PAGE, nullptr, PAGE, SLAB * PAGE, PAGE, p) {}
  void addSlab(const size_t n) override { if (g_fail_slab) throw FailedToCreateSlab(n); CpuBufferMgr::addSlab(n); }
};
// a buffer somebody holds: what is in it
struct Held { AbstractBuffer* b; int chunk; int n; int8_t d[SLAB * PAGE]; bool pinned; };
static Held h[8];
static int nh, g_ids;
static bool mine(const Held& x, const std::vector<int32_t>& k) {
  if (x.chunk >= 0) return k.size() == 4 && k[3] == x.chunk;
  return k.size() == 2 && k[1] == -1 - x.chunk;
}
static void look(Pool& p) {
  auto mi = p.getMemoryInfo();
  ASSERTM(mi.numPageAllocated <= POOL && mi.maxNumPages == POOL, "the pool stays within its size");
  size_t slab = 0, at = 0, total = 0, used = 0;
  for (auto& s : mi.nodeMemoryData) {
    if (s.slabNum != slab) { slab = s.slabNum; at = 0; }
    ASSERTM((size_t)s.startPage == at, "segments follow one another");
    at += s.numPages; total += s.numPages;
    if (s.memStatus == USED) used += s.numPages;
  }
  ASSERTM(total == mi.numPageAllocated, "segments cover the slabs");
  ASSERTM(p.getInUseSize() == used * PAGE, "bytes in use");
  for (int i = 0; i < nh; i++) if (h[i].pinned) {
    ASSERTM((int)h[i].b->size() == h[i].n && h[i].b->reservedSize() >= h[i].b->size(), "a pinned buffer keeps its size");
    if (h[i].n) ASSERTM(!memcmp(h[i].b->getMemoryPtr(), h[i].d, h[i].n), "a pinned buffer keeps its contents");
    ASSERTM(h[i].b->getPinCount() == 1, "pins are counted");
    ASSERTM(h[i].chunk < 0 || p.isBufferOnDevice(key(h[i].chunk)), "a pinned chunk stays");
    size_t pages = 0;
    for (auto& s : mi.nodeMemoryData) if (s.memStatus == USED && mine(h[i], s.chunk_key)) pages += s.numPages;
    ASSERTM(pages * PAGE >= h[i].b->reservedSize(), "a pinned buffer keeps its pages");
  }
}
// can that many pages be had: free or unpinned pages in a row (those of a buffer that is to grow do not count), or another slab
static bool room(Pool& p, size_t pages, int but = CH) {
  auto mi = p.getMemoryInfo();
  if (!g_fail_slab && mi.numPageAllocated + pages <= POOL) return true;
  size_t slab = 0, run = 0;
  for (auto& s : mi.nodeMemoryData) {
    if (s.slabNum != slab) { slab = s.slabNum; run = 0; }
    bool pinned = s.memStatus == USED && s.chunk_key.size() == 4 && s.chunk_key[3] == but;
    if (s.memStatus == USED) for (int i = 0; i < nh; i++) pinned |= h[i].pinned && mine(h[i], s.chunk_key);
    run = pinned ? 0 : run + s.numPages;
    if (run >= pages) return true;
  }
  return false;
}
static Held* held(int chunk) { for (int i = 0; i < nh; i++) if (h[i].chunk == chunk && h[i].pinned) return &h[i]; return nullptr; }
static Held& pick(bool chunks) {
  if (!nh) sym_assume(false);
  int i = sym_choose("which", 0, nh - 1);
  if (!h[i].pinned || (!chunks && h[i].chunk >= 0)) sym_assume(false);
  return h[i];
}
static void drop(Held& x) { x = h[--nh]; }
static size_t pagesOf(size_t n) { return (n + PAGE - 1) / PAGE; }
static void step(Pool& p, const char* ops) {
  char op = ops[sym_choose("operation", 0, (int)strlen(ops) - 1)];
  if (op == 'A') {  // allocate
    size_t n = (size_t)sym_range("bytes", 1, SLAB * PAGE + 1);
    size_t pages = sym_concretize(pagesOf(n));
    bool can = pages <= SLAB && room(p, pages), ok = true;
    int id = g_ids++;
    Held& x = h[nh];
    try { x.b = p.alloc(n); } catch (OutOfMemory&) { ok = false; }
    ASSERTM(ok == can, "an allocation fails exactly when there is no room");
    if (ok) {
      nh++;
      x.chunk = -1 - id; x.pinned = true;
      ASSERTM(x.b->reservedSize() == pages * PAGE, "as much as was asked for");
      x.n = (int)(pages * PAGE);
      for (int i = 0; i < x.n; i++) x.d[i] = sym_i8("byte");
      memcpy(x.b->getMemoryPtr(), x.d, x.n);
      x.b->setSize(x.n);
    } else sym_cover("no room");
  } else if (op == 'C' || op == 'E') {  // fetch a chunk, or more of it
    int k = sym_choose("chunk", 0, CH - 1);
    size_t n = (size_t)sym_choose("chunk pages", 1, 3) * PAGE - 1;
    Held* x = held(k);
    bool here = p.isBufferOnDevice(key(k)), can = (x && x->n >= (int)n) || room(p, pagesOf(n), k), ok = true;
    AbstractBuffer* b;
    const bool wasHeld = x;
    g_fail_fetch = ops[0] == 'E' && (!x || x->n < (int)n) && sym_choose("the parent fails", 0, 1);
    if (g_fail_fetch) can = false;
    try { b = p.getBuffer(key(k), n); } catch (OutOfMemory&) { ok = false; }
    if (g_fail_fetch && !ok && !here) ASSERTM(!p.isBufferOnDevice(key(k)), "a chunk that could not be fetched is not there");
    g_fail_fetch = false;
    if (ok) {
      ASSERTM(b->size() >= n && !memcmp(b->getMemoryPtr(), g_data[k], n), "a chunk holds the data of the parent");
      if (x) { ASSERTM(b == x->b, "one buffer per chunk"); ASSERTM(b->unPin() == 1, "pins are counted"); sym_cover("fetched again"); }
      else { x = &h[nh++]; x->b = b; x->chunk = k; x->pinned = true; ASSERTM(b->getPinCount() == 1, "a fetched chunk is pinned once"); }
      x->n = (int)b->size();
      memcpy(x->d, g_data[k], x->n);
      if (here && !wasHeld) sym_cover("unpinned chunk found");
    } else {
      ASSERTM(!can, "a fetch fails only when there is no room");
      sym_cover("fetch fails");
      // what was there before can still be had
      if (x) { b = p.getBuffer(key(k), x->n); ASSERTM(b == x->b && b->unPin() == 1, "a failed fetch takes nothing away"); }
    }
  } else if (op == 'U') {  // unpin
    Held& x = pick(true);
    ASSERTM(x.b->unPin() == 0, "pins are counted");
    drop(x);
  } else if (op == 'F') {  // free or delete
    Held& x = pick(true);
    if (x.chunk < 0) p.free(x.b); else { p.deleteBuffer(key(x.chunk)); ASSERTM(!p.isBufferOnDevice(key(x.chunk)), "a deleted chunk is gone"); }
    drop(x);
  } else if (op == 'G') {  // append or write at any offset
    Held& x = pick(false);
    size_t m = (size_t)sym_choose("more bytes", 1, PAGE + 1);
    bool app = sym_choose("append", 0, 1);
    size_t off = app ? x.n : (size_t)sym_choose("offset", x.n - 1, x.n);
    if (off + m > SLAB * PAGE) sym_assume(false);
    int8_t more[PAGE + 1];
    for (size_t k = 0; k < m; k++) more[k] = sym_i8("byte");
    bool ok = true, can = room(p, pagesOf(off + m));
    try { if (app) x.b->append(more, m); else x.b->write(more, m, off); } catch (OutOfMemory&) { ok = false; }
    if (ok) { memcpy(x.d + off, more, m); if (x.n < (int)(off + m)) x.n = (int)(off + m); sym_cover("grown"); ASSERTM(x.b->isDirty(), "written buffers are dirty"); }
    else ASSERTM(!can, "growing fails only when there is no room");
  } else if (op == 'P') {
    int tb = sym_choose("table", 0, 1);
    bool other[CH];
    for (int k = 0; k < CH; k++) other[k] = p.isBufferOnDevice(key(k));
    p.deleteBuffersWithPrefix(ChunkKey{1, tb});
    for (int k = 0; k < CH; k++) ASSERTM(p.isBufferOnDevice(key(k)) == (k / 2 == tb ? held(k) != nullptr : other[k]), "exactly the unpinned chunks of the table are gone");
  } else if (op == 'Z') {
    p.clearSlabs();
    if (!nh) ASSERTM(p.getInUseSize() == 0 && p.getAllocated() == 0 && p.getNumChunks() == 0, "memory is given back");
    for (int k = 0; k < CH; k++) ASSERTM(p.isBufferOnDevice(key(k)) == (held(k) != nullptr), "exactly the pinned chunks stay");
  } else {
    g_fail_slab = !g_fail_slab;
    sym_cover("slabs fail");
  }
  look(p);
}
static void run(const char* const* ops) {
  Parent par;
  {
    Pool p(&par);
    for (int k = 0; k < CH; k++) for (int i = 0; i < SLAB * PAGE; i++) g_data[k][i] = sym_i8("data");
    while (*ops) step(p, *ops++);
    sym_cover("history done");
    for (int i = 0; i < nh; i++) ASSERTM(h[i].b->unPin() == 0, "pins are counted");
  }
}
#define HISTORY(name, ...) HARNESS(name) { static const char* const o[] = {__VA_ARGS__, nullptr}; run(o); }
HISTORY(h_any, "ACUFGPZX", "ACUFGPZX", "ACUFGPZX")
HISTORY(h_alloc, "A", "A", "A", "UF", "UF", "AG")
HISTORY(h_evict, "A", "A", "UF", "AC", "U", "AC")
HISTORY(h_chunks, "C", "C", "U", "AC", "U", "C")
HISTORY(h_grow, "A", "A", "G", "UF", "G")
HISTORY(h_delete, "C", "C", "UZ", "PZF", "AC", "PZ")
HISTORY(h_fail_fetch, "C", "E", "U", "E")
HISTORY(h_fail, "AX", "AX", "AX", "UF", "AC")
// buffers that are still pinned when the pool goes away, and chunks that are not copied, live until they are unpinned
HARNESS(h_outlive) {
  Parent par;
  AbstractBuffer *a, *b;
  {
    Pool p(&par);
    a = p.alloc(sym_choose("bytes", 0, 2));
    b = p.getBuffer(key(0), 1);
    b->pin();
  }
  ASSERTM(a->unPin() == 0 && b->unPin() == 1 && b->unPin() == 0, "pins are counted");
  sym_cover("outlived");
}
HARNESS(h_zero_copy) {
  Parent par;
  Pool p(&par);
  int8_t c = g_direct[0] = sym_i8("data");
  AbstractBuffer* b = p.getBuffer(key(CH), 1);
  ASSERTM(b->getMemoryPtr() == g_direct && b->size() == 1 && *b->getMemoryPtr() == c, "a chunk that need not be copied is used in place");
  ASSERTM(p.getInUseSize() == 0 && g_tokens == 1, "and takes no memory of the pool");
  int8_t d;
  b->read(&d, 1);
  ASSERTM(d == c, "reads give the data");
  b->pin();
  ASSERTM(b->unPin() == 1 && g_tokens == 1 && b->unPin() == 0 && g_tokens == 0, "it is released with the last pin");
  sym_cover("zero copy");
}
