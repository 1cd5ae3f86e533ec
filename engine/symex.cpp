// symex: a small KLEE-style symbolic executor for LLVM 18 bitcode.
// Every feasible path of vp_main() is executed with symbolic inputs as z3 bit-vectors.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <unistd.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <deque>
#include <memory>
#include <fstream>
#include <sstream>
#include <cinttypes>
#include <cmath>
#include <sys/resource.h>

using namespace llvm;
static ExprMgr M;
static Solver* SV;
static const DataLayout* DL;
static Module* MOD;

struct Val { uint64_t c = 0; E e = nullptr; };
static inline Val C(uint64_t x) { return Val{x, nullptr}; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : M.cst(v.c, w); }
static inline Val fromE(E e) { if (e->k == K::CONST && e->w <= 64) return C((uint64_t)e->val); return Val{0, e}; }
static inline bool isC(const Val& v) { return !v.e || v.e->k == K::CONST; }
static inline u128 cv(const Val& v) { return v.e ? v.e->val : v.c; }

static const uint64_t BASE = 0x100000000000ull; static const unsigned STRIDE = 20;
enum OK : uint8_t { O_GLOBAL, O_CONST, O_STACK, O_MALLOC, O_NEW, O_NEWARR, O_FUNC, O_EXC };
struct Obj {
  int rc = 1; uint64_t base = 0, size = 0; uint8_t* data = nullptr; E* sym = nullptr; OK kind = O_GLOBAL; std::string* name = nullptr; unsigned nsym = 0;
  ~Obj() { free(data); free(sym); }
  Obj* clone() const { Obj* o = new Obj; o->base = base; o->size = size; o->kind = kind; o->name = name; o->nsym = nsym;
    o->data = (uint8_t*)malloc(size + 1); memcpy(o->data, data, size);
    if (sym && nsym) { o->sym = (E*)malloc(size * sizeof(E)); memcpy(o->sym, sym, size * sizeof(E)); } return o; }
};
static void decr(Obj* o) { if (o && --o->rc == 0) delete o; }
struct Chunk { int rc = 1; Obj* o[256]; Chunk() { memset(o, 0, sizeof o); } Chunk(const Chunk& c) { for (int i = 0; i < 256; i++) { o[i] = c.o[i]; if (o[i]) o[i]->rc++; } } ~Chunk() { for (auto x : o) decr(x); } };
struct Mem {
  std::vector<Chunk*> ch; uint64_t next = 1;
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto c : ch) if (c) c->rc++; }
  Mem& operator=(const Mem&) = delete; void swap(Mem& o) { ch.swap(o.ch); std::swap(next, o.next); }
  ~Mem() { for (auto c : ch) if (c && --c->rc == 0) delete c; }
  Obj* at(uint64_t id) const { uint64_t h = id >> 8; if (h >= ch.size() || !ch[h]) return nullptr; return ch[h]->o[id & 255]; }
  Obj** slotW(uint64_t id) { uint64_t h = id >> 8; if (h >= ch.size()) ch.resize(h + 1, nullptr); if (!ch[h]) ch[h] = new Chunk; else if (ch[h]->rc > 1) { ch[h]->rc--; ch[h] = new Chunk(*ch[h]); } return &ch[h]->o[id & 255]; }
  Obj* alloc(uint64_t size, OK kind) {
    uint64_t n = (size >> STRIDE) + 1; Obj* o = new Obj; o->base = BASE + (next << STRIDE) ; o->size = size; o->kind = kind; o->data = (uint8_t*)malloc(size + 1);
    memset(o->data, 0xAB, size);
    o->rc = n; for (uint64_t i = 0; i < n; i++) *slotW(next + i) = o; next += n; return o;
  }
  Obj* find(uint64_t addr) const { if (addr < BASE) return nullptr; return at((addr - BASE) >> STRIDE); }
  Obj* write(Obj* o) { // COW
    uint64_t id = (o->base - BASE) >> STRIDE, n = (o->size >> STRIDE) + 1;
    Obj** s = slotW(id); o = *s; if ((uint64_t)o->rc == n) return o; // sole owner
    Obj* c = o->clone(); c->rc = n; for (uint64_t i = 0; i < n; i++) { Obj** t = slotW(id + i); decr(*t); *t = c; } return c;
  }
  void release(Obj* o) { uint64_t id = (o->base - BASE) >> STRIDE, n = (o->size >> STRIDE) + 1; for (uint64_t i = 0; i < n; i++) { Obj** t = slotW(id + i); Obj* x = *t; *t = nullptr; decr(x); }
    // drop leading empty chunks lazily
  }
};

struct Leaf { uint64_t off; unsigned w; bool fp; };
typedef std::vector<Leaf> Layout;
static std::unordered_map<Type*, Layout*> layouts;
static void flat(Type* t, uint64_t off, Layout& l) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), l); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t s = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * s, l); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t s = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * s, l); }
  else if (t->isPointerTy()) l.push_back({off, 64, false});
  else if (t->isIntegerTy()) l.push_back({off, t->getIntegerBitWidth(), false});
  else if (t->isFloatTy()) l.push_back({off, 32, true}); else if (t->isDoubleTy()) l.push_back({off, 64, true});
  else if (t->isX86_FP80Ty()) l.push_back({off, 80, true});
  else if (t->isFP128Ty()) l.push_back({off, 128, true});
  else if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) {}
  else { errs() << "unsupported type " << *t << "\n"; exit(3); }
}
static const Layout& layout(Type* t) { auto& p = layouts[t]; if (!p) { p = new Layout; flat(t, 0, *p); } return *p; }

struct Opnd { int slot = -1; unsigned n = 0; const Val* c = nullptr; };
struct PInst { Instruction* I; unsigned op; int dst = -1; unsigned n = 0; unsigned w = 0; std::vector<Opnd> ops; std::vector<int64_t> x; const Layout* lay = nullptr; void* aux = nullptr; };
struct PBlock { std::vector<PInst> ins; unsigned nphi = 0; std::unordered_map<unsigned, unsigned> predIdx; };
struct PFn { Function* F; unsigned nslots = 0; std::vector<PBlock> bb; std::vector<std::pair<int, unsigned>> args; bool used = false; std::string name; bool isRepo = false; };
static std::unordered_map<Function*, PFn*> pfns;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function*> fnByAddr;

struct Frame { PFn* f; unsigned bb = 0, pc = 0, prev = 0; std::vector<Val> r; std::vector<uint64_t> allocas; std::vector<Val> va; std::vector<unsigned> vaw; };
struct ExcRec { uint64_t obj, type, dtor, adj; int handlers; bool rethrow; };
struct InputRec { std::string name; unsigned w; E e; };
struct Snap { Mem mem; std::vector<Frame> st; std::vector<ExcRec> exc; std::vector<uint64_t> caught; int64_t uncaught; std::vector<Function*> pending; };  // of the run itself, not of what is known about the inputs
struct State {
  std::shared_ptr<const Snap> snap; bool isoBack = false; std::vector<std::vector<Val>> iso;
  Mem mem; std::vector<Frame> st; std::vector<E> pc; Model model; bool modelOk = true;
  std::vector<ExcRec> exc; std::vector<uint64_t> caught; int64_t uncaught = 0;
  std::vector<InputRec> inputs; std::unordered_map<std::string, int> symCount; std::vector<std::pair<std::string, Val>> obs;
  std::vector<Function*> pending; uint64_t steps = 0; uint64_t depth = 0;
  std::set<std::string> reached;
};

// ---------- options / results ----------
static std::map<std::string, uint64_t> params; static double maxTime = 600; static uint64_t maxPaths = ~0ull, maxSteps = 100000000ull; static unsigned maxViol = 3;
static std::map<std::string, uint64_t> fixedInputs; static bool replay = false; static bool verbose = false;
static uint64_t nPaths = 0, nSteps = 0, nForks = 0, nKilledAssume = 0, nChecks = 0, nChecksSym = 0;
struct Viol { std::string kind, msg, where; std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> inputs; };
static std::vector<Viol> viols; static std::set<std::string> violKeys; static std::vector<std::string> inconcl; static std::set<std::string> reached; static std::map<std::string, uint64_t> reachCnt;
static std::vector<State*> work; static std::set<std::string> externsUsed;
static std::vector<std::vector<std::pair<std::string, std::string>>> obsOut;
static std::vector<std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>>> sampleInputs;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static std::string locOf(State& s, unsigned depth = 4) {
  std::string r; unsigned n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < depth; i--) {
    Frame& f = s.st[i]; std::string d = f.f->name; if (d.size() > 90) d = d.substr(0, 90) + "...";
    std::string ln; if (f.bb < f.f->bb.size() && f.pc < f.f->bb[f.bb].ins.size()) { if (auto& dl = f.f->bb[f.bb].ins[f.pc].I->getDebugLoc()) { auto* sc = cast<DIScope>(dl->getScope()); std::string fn = sc->getFilename().str(); auto p = fn.rfind('/'); ln = (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(dl.getLine()); } }
    r += (n ? " < " : "") + d + (ln.empty() ? "" : " (" + ln + ")"); n++;
  }
  return r;
}
static void kill_(State& s, const char* why);
struct TimeUp { };
struct PathEnd { };  // thrown (engine compiled with exceptions) to end the current path
static void endPath() { throw PathEnd{}; }
static std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> modelInputs(State& s, const Model& m) {
  std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> r;
  for (auto& i : s.inputs) r.push_back({i.name, {i.w, (uint64_t)M.eval(i.e, m)}});
  return r;
}
static void violation(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  std::string where = locOf(s, 5);
  std::string key = kind + "|" + msg + "|" + locOf(s, 1);
  if (!violKeys.insert(key).second) return;
  viols.push_back({kind, msg, where, modelInputs(s, m)});
}
static void incon(const std::string& m) { if (std::find(inconcl.begin(), inconcl.end(), m) == inconcl.end()) inconcl.push_back(m); }
// a path that did not end within its bounds: the driver finds out by a native run whether the real code ends
static std::vector<Viol> suspects;
static void suspect(State& s) { if (s.modelOk && suspects.size() < 4) suspects.push_back({"hang", "does not end on this input within the time and memory given", locOf(s, 5), modelInputs(s, s.model)}); }
[[noreturn]] static void fatalPath(State& s, const std::string& m) { incon(m + " at " + locOf(s, 6)); throw PathEnd{}; }

// ---------- solver helpers ----------
static std::map<std::string, uint64_t> qhist;
static Sat satWith(State& s, E c, Model& m, bool assertion = false) {
  if (c->k == K::CONST) return c->val ? Sat::SAT : Sat::UNSAT;
  if (s.modelOk && M.eval(c, s.model)) { m = s.model; return Sat::SAT; }
  m = s.model;
  if (!assertion && s.modelOk) { Sat d = SV->domain(s.pc, c, &m); if (d != Sat::UNKNOWN) return d; }
  if (elapsed() > maxTime) throw TimeUp{};
  uint64_t q0 = SV->queries; Sat r = SV->check(s.pc, c, &m);
  if (verbose && SV->queries != q0) qhist[locOf(s, 3) + (assertion ? " !" : "") + (s.modelOk ? "" : " nomodel") + " vars=" + std::to_string(c->vars->v.size())]++;
  if (r == Sat::UNKNOWN) incon("solver returned unknown (timeout) at " + locOf(s, 3));
  return r;
}
static void addPc(State& s, E c, const Model* m) {
  if (c->k == K::CONST) return;
  if (c->k == K::AND && c->w == 1) { addPc(s, c->a, nullptr); addPc(s, c->b, nullptr); }
  else if (c->k == K::XOR && ExprMgr::isC(c->b, 1) && c->w == 1 && c->a->k == K::OR) { addPc(s, M.bnot(c->a->a), nullptr); addPc(s, M.bnot(c->a->b), nullptr); }
  else if (std::find(s.pc.begin(), s.pc.end(), c) == s.pc.end()) s.pc.push_back(c);
  if (m) { s.model = *m; }
  else return;
  // verify the model (it can be inexact only for uninterpreted functions / NaN payloads)
  s.modelOk = M.eval(c, s.model) != 0;
}
static bool mustBeTrue(State& s, E c) { Model m; return satWith(s, M.bnot(c), m) == Sat::UNSAT; }
static State* forkState(State& s, E c, const Model& m) {
  State* n = new State(s); addPc(*n, c, &m); n->depth++; nForks++; work.push_back(n); return n;
}
// Makes v concrete; other feasible values are explored by forked states that re-execute the instruction.
static uint64_t concretize(State& s, const Val& v, unsigned w) {
  if (isC(v)) return (uint64_t)cv(v);
  if (!s.modelOk) { Model m = s.model; SV->check(s.pc, M.tru(), &m); s.model = m; }
  uint64_t x = (uint64_t)M.eval(v.e, s.model);
  E eq = M.bin(K::EQ, v.e, M.cst(x, w));
  Model m; Sat r = satWith(s, M.bnot(eq), m);
  if (r == Sat::SAT) forkState(s, M.bnot(eq), m);
  if (!s.modelOk) { Model m2 = s.model; if (SV->check(s.pc, eq, &m2) != Sat::SAT) endPath(); addPc(s, eq, &m2); }
  else { Model m2 = s.model; addPc(s, eq, &m2); }
  return x;
}
// Branch on a symbolic condition; returns the side taken by the current state, forking the other if feasible.
static bool branch(State& s, const Val& v) {
  if (isC(v)) return cv(v) & 1;
  E c = v.e;
  if (s.modelOk) {
    bool side = M.eval(c, s.model) != 0; E other = side ? M.bnot(c) : c;
    Model m; Sat r = satWith(s, other, m);
    if (r == Sat::SAT) forkState(s, other, m);
    Model mm = s.model; addPc(s, side ? c : M.bnot(c), &mm);
    return side;
  }
  Model m1 = s.model, m2 = s.model; Sat t = SV->check(s.pc, c, &m1), f = SV->check(s.pc, M.bnot(c), &m2);
  if (t == Sat::UNKNOWN || f == Sat::UNKNOWN) incon("solver returned unknown at " + locOf(s, 3));
  if (t == Sat::SAT && f == Sat::SAT) { forkState(s, M.bnot(c), m2); addPc(s, c, &m1); return true; }
  if (t == Sat::SAT) { addPc(s, c, &m1); return true; }
  if (f == Sat::SAT) { addPc(s, M.bnot(c), &m2); return false; }
  endPath(); return false;
}
static void errorIf(State& s, const Val& cond, const char* kind, const std::string& msg) {
  // reports if cond can be true; continues on the complement
  if (isC(cond)) { if (cv(cond) & 1) { violation(s, kind, msg, s.model); endPath(); } return; }
  // a disjunction of possible failures is decided disjunct by disjunct (smaller slices)
  std::vector<E> todo{cond.e}, leaf; std::unordered_set<E> seen;
  while (!todo.empty()) { E e = todo.back(); todo.pop_back(); if (!seen.insert(e).second) continue;
    if (e->w == 1 && e->k == K::OR) { todo.push_back(e->a); todo.push_back(e->b); }
    else if (e->w == 1 && e->k == K::XOR && ExprMgr::isC(e->b, 1) && e->a->k == K::AND) { todo.push_back(M.bnot(e->a->a)); todo.push_back(M.bnot(e->a->b)); }
    else leaf.push_back(e); }
  if (leaf.size() > 1) { std::map<const VarSet*, E> g; for (E e : leaf) { auto& x = g[e->vars]; x = x ? M.bor(x, e) : e; } leaf.clear(); for (auto& x : g) leaf.push_back(x.second); if (leaf.size() > 64) leaf = {cond.e}; }
  for (E e : leaf) { Model m; if (satWith(s, e, m, true) == Sat::SAT) { violation(s, kind, msg, m); break; } }
  E n = M.bnot(cond.e); Model m2; if (satWith(s, n, m2) != Sat::SAT) endPath();
  addPc(s, n, &m2);
}

// ---------- memory ----------
static void urange(E e, uint64_t& lo, uint64_t& hi, int d = 0) {
  uint64_t full = m64(e->w); lo = 0; hi = full; if (d > 12) return;
  switch (e->k) {
    case K::CONST: lo = hi = (uint64_t)e->val; break;
    case K::ZEXT: urange(e->a, lo, hi, d + 1); break;
    case K::ITE: { uint64_t a, b, c, f; urange(e->b, a, b, d + 1); urange(e->c, c, f, d + 1); lo = std::min(a, c); hi = std::max(b, f); break; }
    case K::ADD: { uint64_t a, b, c, f; urange(e->a, a, b, d + 1); urange(e->b, c, f, d + 1); if (b + f >= b && b + f <= full) { lo = a + c; hi = b + f; }
      else if (e->b->k == K::CONST) { uint64_t k = (uint64_t)(-(e->b->val)) & full; if (a >= k) { lo = a - k; hi = b - k; } } break; }
    case K::CONCAT: { if (e->w > 64) break; uint64_t a, b, c, f; urange(e->a, a, b, d + 1); urange(e->b, c, f, d + 1); lo = (a << e->b->w) + c; hi = (b << e->b->w) + f; break; }
    case K::MUL: { uint64_t a, b, c, f; urange(e->a, a, b, d + 1); urange(e->b, c, f, d + 1); u128 p = (u128)b * f; if (p <= full) { lo = a * c; hi = (uint64_t)p; } break; }
    case K::AND: if (e->b->k == K::CONST) hi = (uint64_t)e->b->val; break;
    case K::UREM: if (e->b->k == K::CONST && e->b->val) hi = (uint64_t)e->b->val - 1; break;
    default: break;
  }
}
static inline E byteAt(const Obj* o, uint64_t off) { if (o->nsym && o->sym[off]) return o->sym[off]; return M.cst(o->data[off], 8); }
static void ensureSym(Obj* o) { if (!o->sym) { o->sym = (E*)calloc(o->size, sizeof(E)); } else if (!o->nsym) memset(o->sym, 0, o->size * sizeof(E)); }
static void setByte(Obj* o, uint64_t off, E e) {
  if (e->k == K::CONST) { o->data[off] = (uint8_t)e->val; if (o->nsym && o->sym[off]) { o->sym[off] = nullptr; o->nsym--; } }
  else { if (!o->nsym) ensureSym(o); if (!o->sym[off]) o->nsym++; o->sym[off] = e; }
}
static Val readRaw(const Obj* o, uint64_t off, unsigned w) {
  unsigned nb = (w + 7) / 8;
  bool sym = false; if (o->nsym) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym && w <= 64) { uint64_t x = 0; memcpy(&x, o->data + off, nb); return C(x & m64(w)); }
  E acc = byteAt(o, off); for (unsigned i = 1; i < nb; i++) acc = M.concat(byteAt(o, off + i), acc);
  if (acc->w != w) acc = M.extract(acc, 0, w);
  return fromE(acc);
}
static void writeRaw(Obj* o, uint64_t off, unsigned w, const Val& v) {
  unsigned nb = (w + 7) / 8;
  if (!v.e && w <= 64) { uint64_t x = v.c & m64(w); memcpy(o->data + off, &x, nb);
    if (o->nsym) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; } return; }
  E e = toE(v, w); if (e->w != nb * 8) e = M.zext(e, nb * 8);
  for (unsigned i = 0; i < nb; i++) setByte(o, off + i, M.byteOf(e, i));
}
static std::string objDesc(Obj* o) { static const char* n[] = {"global", "constant", "stack", "malloc", "new", "new[]", "function", "exception"}; return std::string(n[o->kind]) + (o->name ? " " + *o->name : "") + " of " + std::to_string(o->size) + " bytes"; }
static Obj* checkAddr(State& s, uint64_t a, uint64_t n, const char* what) {
  Obj* o = s.mem.find(a);
  if (!o || a < o->base || a + n > o->base + o->size || a + n < a) {
    std::string d; if (a < 4096) d = "null pointer dereference"; else if (!o) d = "access to freed or unmapped memory"; else d = "out-of-bounds access at offset " + std::to_string((int64_t)(a - o->base)) + " of " + objDesc(o);
    violation(s, "memory", std::string(what) + ": " + d, s.model); endPath();
  }
  return o;
}
// Resolves a possibly symbolic address to one object (forking for others). Returns the object; off is the offset expression.
static Obj* resolve(State& s, const Val& a, uint64_t n, const char* what, Val& off) {
  if (isC(a)) { uint64_t x = (uint64_t)cv(a); Obj* o = checkAddr(s, x, n, what); off = C(x - o->base); return o; }
  if (!s.modelOk) { Model m = s.model; SV->check(s.pc, M.tru(), &m); s.model = m; }
  uint64_t x = (uint64_t)M.eval(a.e, s.model); Obj* o = s.mem.find(x);
  if (!o || x < o->base || x + n > o->base + o->size) {
    // report for this model, then keep exploring other values
    std::string d = (!o ? std::string("access to unmapped memory") : "out-of-bounds access at offset " + std::to_string((int64_t)(x - o->base)) + " of " + objDesc(o));
    violation(s, "memory", std::string(what) + ": " + d, s.model);
    if (o) { E inb = M.band(M.bin(K::ULE, M.cst(o->base, 64), a.e), M.bin(K::ULE, a.e, M.cst(o->base + o->size - n, 64))); Model m; if (o->size >= n && satWith(s, inb, m) == Sat::SAT) forkState(s, inb, m); }
    endPath();
  }
  E offE = M.bin(K::SUB, a.e, M.cst(o->base, 64));
  uint64_t lo, hi; urange(offE, lo, hi);
  if (!(hi <= o->size - n)) {
    E inb = M.bin(K::ULE, offE, M.cst(o->size - n, 64)); E out = M.bnot(inb); Model m;
    if (satWith(s, out, m) == Sat::SAT) forkState(s, out, m);
    Model mm = s.model; addPc(s, inb, &mm);
  }
  off = fromE(offE); return o;
}
static E muxRead(Obj* o, E off, uint64_t lo, uint64_t hi, uint64_t delta, uint64_t step) {  // byte at off+delta, off in {lo, lo+step, ..., hi}
  if (lo >= hi) return byteAt(o, lo + delta);
  uint64_t cnt = (hi - lo) / step + 1; uint64_t mid = lo + (cnt / 2) * step;
  return M.ite(M.bin(K::ULT, off, M.cst(mid, 64)), muxRead(o, off, lo, mid - step, delta, step), muxRead(o, off, mid, hi, delta, step));
}
static uint64_t stepOf(E e) { // known power-of-two multiple of the expression
  if (e->k == K::CONCAT && ExprMgr::isC(e->b, 0)) return e->b->w >= 20 ? (1ull << 20) : (1ull << e->b->w);
  if (e->k == K::ZEXT) return stepOf(e->a);
  if (e->k == K::ADD && e->b->k == K::CONST) { uint64_t a = stepOf(e->a), c = (uint64_t)e->b->val; uint64_t lc = c ? (c & -c) : (1ull << 20); return std::min(a, lc); }
  if (e->k == K::ADD) return std::min(stepOf(e->a), stepOf(e->b));
  if (e->k == K::ITE) return std::min(stepOf(e->b), stepOf(e->c));
  if (e->k == K::CONST) { uint64_t c = (uint64_t)e->val; return c ? std::min<uint64_t>(c & -c, 1 << 20) : (1 << 20); }
  if (e->k == K::MUL && e->b->k == K::CONST) { uint64_t c = (uint64_t)e->b->val; return c & -c; }
  return 1;
}
static void offRange(State& s, Obj* o, E off, uint64_t n, uint64_t& lo, uint64_t& hi, uint64_t& step) {
  urange(off, lo, hi); if (hi > o->size - n) hi = o->size - n; if (lo > hi) lo = 0;
  step = stepOf(off); if (step > 1) { lo = (lo + step - 1) / step * step; hi = hi / step * step; if (lo > hi) { lo = 0; hi = o->size - n; step = 1; } }
}
static const uint64_t MUXMAX = 2048;
static Val loadVal(State& s, const Val& a, uint64_t off, unsigned w) {
  unsigned nb = (w + 7) / 8; Val A = a;
  if (off) A = isC(a) ? C((uint64_t)cv(a) + off) : fromE(M.bin(K::ADD, a.e, M.cst(off, 64)));
  Val o; Obj* ob = resolve(s, A, nb, "load", o);
  if (ob->kind == O_FUNC) { violation(s, "memory", "load from function address", s.model); endPath(); }
  if (isC(o)) return readRaw(ob, (uint64_t)cv(o), w);
  uint64_t lo, hi, step; offRange(s, ob, o.e, nb, lo, hi, step);
  if ((hi - lo) / step > MUXMAX) { uint64_t x = concretize(s, o, 64); return readRaw(ob, x, w); }
  E acc = nullptr; for (unsigned i = 0; i < nb; i++) { E b = muxRead(ob, o.e, lo, hi, i, step); acc = acc ? M.concat(b, acc) : b; }
  if (nb > 1) { // build whole-word mux instead, keeps leaves whole
    struct R { static E go(Obj* ob, E off, uint64_t lo, uint64_t hi, uint64_t step, unsigned w) { if (lo >= hi) return toE(readRaw(ob, lo, w), w); uint64_t cnt = (hi - lo) / step + 1, mid = lo + (cnt / 2) * step; return M.ite(M.bin(K::ULT, off, M.cst(mid, 64)), go(ob, off, lo, mid - step, step, w), go(ob, off, mid, hi, step, w)); } };
    acc = R::go(ob, o.e, lo, hi, step, w);
  }
  if (acc->w != w) acc = M.extract(acc, 0, w);
  return fromE(acc);
}
static void storeVal(State& s, const Val& a, uint64_t off, unsigned w, const Val& v) {
  unsigned nb = (w + 7) / 8; Val A = a;
  if (off) A = isC(a) ? C((uint64_t)cv(a) + off) : fromE(M.bin(K::ADD, a.e, M.cst(off, 64)));
  Val o; Obj* ob = resolve(s, A, nb, "store", o);
  if (ob->kind == O_CONST || ob->kind == O_FUNC) { violation(s, "memory", "store to read-only " + objDesc(ob), s.model); endPath(); }
  if (!isC(o)) { uint64_t lo, hi, step; offRange(s, ob, o.e, nb, lo, hi, step);
    if ((hi - lo) / step > 256) { uint64_t x = concretize(s, o, 64); o = C(x); }
    else { ob = s.mem.write(ob); E e = toE(v, w); if (e->w != nb * 8) e = M.zext(e, nb * 8);
      for (uint64_t p = lo; p <= hi; p += step) { E c = M.bin(K::EQ, o.e, M.cst(p, 64)); for (unsigned i = 0; i < nb; i++) setByte(ob, p + i, M.ite(c, M.byteOf(e, i), byteAt(ob, p + i))); }
      return; } }
  ob = s.mem.write(ob); writeRaw(ob, (uint64_t)cv(o), w, v);
}
static uint64_t rd64(State& s, uint64_t a) { Val v = loadVal(s, C(a), 0, 64); return concretize(s, v, 64); }
static std::string rdStr(State& s, uint64_t a) { std::string r; for (;;) { Val v = loadVal(s, C(a++), 0, 8); uint8_t c = (uint8_t)concretize(s, v, 8); if (!c) return r; r.push_back((char)c); } }

// ---------- constants ----------
static void evalConst(const Constant* c, std::vector<Val>& out);
static Val constOp(const Constant* c) { std::vector<Val> v; evalConst(c, v); return v.empty() ? C(0) : v[0]; }
static Val binop(unsigned op, const Val& a, const Val& b, unsigned w);
static uint64_t addrOf(const GlobalValue* g) { if (auto* ga = dyn_cast<GlobalAlias>(g)) return (uint64_t)cv(constOp(ga->getAliasee())); auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; exit(3); } return it->second; }
static void evalConst(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) out.push_back(C(ci->getZExtValue())); else { u128 v = ci->getValue().getLoBits(64).getZExtValue(); APInt hi = ci->getValue().lshr(64); v |= (u128)hi.getZExtValue() << 64; out.push_back(Val{0, M.cst(v, w)}); } return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) out.push_back(C(b.getZExtValue())); else { u128 v = b.getLoBits(64).getZExtValue(); v |= (u128)b.lshr(64).getZExtValue() << 64; out.push_back(Val{0, M.cst(v, b.getBitWidth())}); } return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(C(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto& l : layout(t)) out.push_back(l.w <= 64 ? C(0) : Val{0, M.cst(0, l.w)}); return; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(C(addrOf(g))); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& o : ca->operands()) evalConst(cast<Constant>(o), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; exit(3); } Val b = constOp(ce->getOperand(0)); out.push_back(C((uint64_t)cv(b) + off.getZExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: { Val b = constOp(ce->getOperand(0)); unsigned w = layout(t)[0].w; out.push_back(C((uint64_t)cv(b) & m64(w))); return; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl:
        out.push_back(binop(ce->getOpcode(), constOp(ce->getOperand(0)), constOp(ce->getOperand(1)), layout(t)[0].w)); return;
      case Instruction::ICmp: { uint64_t a = (uint64_t)cv(constOp(ce->getOperand(0))), b = (uint64_t)cv(constOp(ce->getOperand(1))); bool r; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: errs() << "icmp const\n"; exit(3); } out.push_back(C(r)); return; }
      default: errs() << "const expr " << *ce << "\n"; exit(3);
    }
  }
  if (isa<BlockAddress>(c)) { out.push_back(C(1)); return; }
  errs() << "const " << *c << "\n"; exit(3);
}
static void initGlobal(Obj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { memset(o->data + off, 0, DL->getTypeStoreSize(t)); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { memset(o->data + off, 0, DL->getTypeStoreSize(t)); auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t s = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + i * s, ca->getOperand(i)); return; }
  std::vector<Val> v; evalConst(c, v); auto& l = layout(t); for (size_t i = 0; i < l.size(); i++) writeRaw(o, off + l[i].off, l[i].w, v[i]);
}

// ---------- arithmetic ----------
static Val binop(unsigned op, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, m = m64(w);
    switch (op) {
      case Instruction::Add: return C((x + y) & m); case Instruction::Sub: return C((x - y) & m); case Instruction::Mul: return C((x * y) & m);
      case Instruction::And: return C(x & y); case Instruction::Or: return C(x | y); case Instruction::Xor: return C(x ^ y);
      case Instruction::Shl: return C(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return C(y >= w ? 0 : x >> y);
      default: break;
    }
  }
  K k; switch (op) {
    case Instruction::Add: k = K::ADD; break; case Instruction::Sub: k = K::SUB; break; case Instruction::Mul: k = K::MUL; break;
    case Instruction::UDiv: k = K::UDIV; break; case Instruction::SDiv: k = K::SDIV; break; case Instruction::URem: k = K::UREM; break; case Instruction::SRem: k = K::SREM; break;
    case Instruction::And: k = K::AND; break; case Instruction::Or: k = K::OR; break; case Instruction::Xor: k = K::XOR; break;
    case Instruction::Shl: k = K::SHL; break; case Instruction::LShr: k = K::LSHR; break; case Instruction::AShr: k = K::ASHR; break;
    default: abort(); }
  return fromE(M.bin(k, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) { uint64_t x = a.c, y = b.c; int64_t sxx = (int64_t)sx(x, w), syy = (int64_t)sx(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sxx > syy; break; case CmpInst::ICMP_SGE: r = sxx >= syy; break; case CmpInst::ICMP_SLT: r = sxx < syy; break; case CmpInst::ICMP_SLE: r = sxx <= syy; break; default: break; } return C(r); }
  E x = toE(a, w), y = toE(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromE(M.bin(K::EQ, x, y)); case CmpInst::ICMP_NE: return fromE(M.bnot(M.bin(K::EQ, x, y)));
    case CmpInst::ICMP_UGT: return fromE(M.bin(K::ULT, y, x)); case CmpInst::ICMP_UGE: return fromE(M.bin(K::ULE, y, x));
    case CmpInst::ICMP_ULT: return fromE(M.bin(K::ULT, x, y)); case CmpInst::ICMP_ULE: return fromE(M.bin(K::ULE, x, y));
    case CmpInst::ICMP_SGT: return fromE(M.bin(K::SLT, y, x)); case CmpInst::ICMP_SGE: return fromE(M.bin(K::SLE, y, x));
    case CmpInst::ICMP_SLT: return fromE(M.bin(K::SLT, x, y)); default: return fromE(M.bin(K::SLE, x, y));
  }
}
static Val iteV(E c, const Val& a, const Val& b, unsigned w) { return fromE(M.ite(c, toE(a, w), toE(b, w))); }

// long double support: concrete only, 80-bit patterns
static long double asLD(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static Val fromLD(long double d) { u128 v = 0; memcpy(&v, &d, 10); return Val{0, M.cst(v, 80)}; }

#include "interp.h"
