// Function preparation, instruction interpretation, calls, exceptions, driver. Included by symex.cpp.
static std::unordered_map<const Value*, std::pair<int, unsigned>>* curSlots;
static std::set<std::string> repoPrefixes{"cqasm::"};

static Opnd mkOp(Value* v) {
  Opnd o;
  if (auto* c = dyn_cast<Constant>(v)) { auto* vv = new std::vector<Val>; evalConst(c, *vv); o.c = vv->data(); o.n = vv->size(); return o; }
  if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
  auto it = curSlots->find(v); if (it == curSlots->end()) { errs() << "no slot for " << *v << "\n"; exit(3); }
  o.slot = it->second.first; o.n = it->second.second; return o;
}
static PFn* prep(Function* F) {
  auto& p = pfns[F]; if (p) return p;
  p = new PFn; p->F = F; PFn* fn = p;
  fn->name = demangle(F->getName().str());
  fn->isRepo = fn->name.find("cqasm::") == 0 || (fn->name.find(" cqasm::") != std::string::npos && fn->name.find("std::") != 0 && fn->name.find("fmt::") != 0 && fn->name.find('<') == std::string::npos);
  std::unordered_map<const Value*, std::pair<int, unsigned>> slots; int n = 0;
  for (auto& a : F->args()) { unsigned k = layout(a.getType()).size(); slots[&a] = {n, k}; fn->args.push_back({n, k}); n += k; }
  std::unordered_map<const BasicBlock*, unsigned> bbi; unsigned bi = 0;
  for (auto& B : *F) { bbi[&B] = bi++; for (auto& I : B) { unsigned k = layout(I.getType()).size(); if (k) { slots[&I] = {n, k}; n += k; } } }
  fn->nslots = n; curSlots = &slots; fn->bb.resize(bi);
  bi = 0;
  for (auto& B : *F) {
    PBlock& pb = fn->bb[bi++];
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      PInst pi; pi.I = &I; pi.op = I.getOpcode(); auto it = slots.find(&I); if (it != slots.end()) { pi.dst = it->second.first; pi.n = it->second.second; }
      if (!I.getType()->isVoidTy()) { pi.lay = &layout(I.getType()); if (pi.lay->size()) pi.w = (*pi.lay)[0].w; }
      switch (pi.op) {
        case Instruction::PHI: { auto* ph = cast<PHINode>(&I); pb.nphi++;
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { pi.ops.push_back(mkOp(ph->getIncomingValue(i))); pi.x.push_back(bbi[ph->getIncomingBlock(i)]); } break; }
        case Instruction::Br: { auto* b = cast<BranchInst>(&I); if (b->isConditional()) { pi.ops.push_back(mkOp(b->getCondition())); pi.x = {bbi[b->getSuccessor(0)], bbi[b->getSuccessor(1)]}; } else pi.x = {bbi[b->getSuccessor(0)]}; break; }
        case Instruction::Switch: { auto* sw = cast<SwitchInst>(&I); pi.ops.push_back(mkOp(sw->getCondition())); pi.w = sw->getCondition()->getType()->getIntegerBitWidth(); pi.x.push_back(bbi[sw->getDefaultDest()]);
          for (auto& c : sw->cases()) { pi.x.push_back((int64_t)c.getCaseValue()->getZExtValue()); pi.x.push_back(bbi[c.getCaseSuccessor()]); } break; }
        case Instruction::Invoke: { auto* iv = cast<InvokeInst>(&I); for (auto& a : iv->args()) pi.ops.push_back(mkOp(a)); if (!iv->getCalledFunction()) pi.ops.push_back(mkOp(iv->getCalledOperand())); pi.x = {bbi[iv->getNormalDest()], bbi[iv->getUnwindDest()]}; break; }
        case Instruction::Call: { auto* c = cast<CallInst>(&I); for (auto& a : c->args()) pi.ops.push_back(mkOp(a)); if (!isa<Function>(c->getCalledOperand())) pi.ops.push_back(mkOp(c->getCalledOperand())); break; }
        case Instruction::GetElementPtr: { auto* g = cast<GetElementPtrInst>(&I); pi.ops.push_back(mkOp(g->getPointerOperand())); int64_t off = 0; pi.x.push_back(0);
          if (I.getType()->isVectorTy()) { errs() << "vector gep\n"; exit(3); }
          for (auto gti = gep_type_begin(g), ge = gep_type_end(g); gti != ge; ++gti) { Value* idx = gti.getOperand();
            if (auto* st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            else { int64_t sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sc; else { pi.ops.push_back(mkOp(idx)); pi.x.push_back(sc); pi.x.push_back(idx->getType()->getIntegerBitWidth()); } } }
          pi.x[0] = off; break; }
        case Instruction::ExtractValue: case Instruction::InsertValue: { Type* t = I.getOperand(0)->getType(); ArrayRef<unsigned> ix = pi.op == Instruction::ExtractValue ? cast<ExtractValueInst>(&I)->getIndices() : cast<InsertValueInst>(&I)->getIndices();
          unsigned k = 0; for (unsigned i : ix) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) k += layout(st->getElementType(j)).size(); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); k += i * layout(at->getElementType()).size(); t = at->getElementType(); } }
          pi.x = {k}; for (auto& o : I.operands()) pi.ops.push_back(mkOp(o)); break; }
        case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); pi.x = {(int64_t)DL->getTypeAllocSize(a->getAllocatedType())}; pi.ops.push_back(mkOp(a->getArraySize())); break; }
        case Instruction::Store: { pi.ops.push_back(mkOp(I.getOperand(0))); pi.ops.push_back(mkOp(I.getOperand(1))); pi.lay = &layout(I.getOperand(0)->getType()); break; }
        case Instruction::ICmp: case Instruction::FCmp: pi.w = layout(I.getOperand(0)->getType())[0].w; pi.x = {(int64_t)cast<CmpInst>(&I)->getPredicate()}; for (auto& o : I.operands()) pi.ops.push_back(mkOp(o)); break;
        case Instruction::LandingPad: { auto* lp = cast<LandingPadInst>(&I); for (unsigned i = 0; i < lp->getNumClauses(); i++) pi.ops.push_back(mkOp(lp->getClause(i))); break; }
        case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&I); for (int m : sv->getShuffleMask()) pi.x.push_back(m); pi.ops.push_back(mkOp(I.getOperand(0))); pi.ops.push_back(mkOp(I.getOperand(1))); break; }
        default:
          if (I.isCast()) pi.x = {(int64_t)layout(I.getOperand(0)->getType())[0].w};
          for (auto& o : I.operands()) pi.ops.push_back(mkOp(o)); break;
      }
      pb.ins.push_back(std::move(pi));
    }
  }
  return fn;
}

static inline Val get(Frame& f, const Opnd& o, unsigned i = 0) { return o.slot >= 0 ? f.r[o.slot + i] : o.c[i]; }
static void jump(State& s, Frame& f, unsigned to) {
  unsigned from = f.bb; f.prev = from; f.bb = to; f.pc = 0; PBlock& b = f.f->bb[to];
  if (b.nphi) {
    std::vector<std::pair<int, Val>> tmp;
    for (unsigned i = 0; i < b.nphi; i++) { PInst& p = b.ins[i]; unsigned k; for (k = 0; k < p.x.size(); k++) if ((unsigned)p.x[k] == from) break; if (k == p.x.size()) { errs() << "phi\n"; exit(3); }
      for (unsigned j = 0; j < p.n; j++) tmp.push_back({p.dst + (int)j, get(f, p.ops[k], j)}); }
    for (auto& t : tmp) f.r[t.first] = t.second; f.pc = b.nphi;
  }
}
static void popFrame(State& s) { Frame& f = s.st.back(); for (auto a : f.allocas) { Obj* o = s.mem.find(a); if (o) s.mem.release(o); } s.st.pop_back(); }
static void pushFrame(State& s, Function* F, const std::vector<Val>& args, const std::vector<unsigned>& widths) {
  if (s.st.size() > 3000) { violation(s, "recursion", "call depth exceeds 3000 frames (stack overflow)", s.model); endPath(); }
  PFn* p = prep(F); p->used = true; s.st.emplace_back(); Frame& f = s.st.back(); f.f = p; f.r.resize(p->nslots);
  size_t k = 0; for (auto& a : p->args) for (unsigned j = 0; j < a.second; j++) f.r[a.first + j] = k < args.size() ? args[k++] : C(0);
  for (; k < args.size(); k++) { f.va.push_back(args[k]); f.vaw.push_back(k < widths.size() ? widths[k] : 64); }
}
static void finishCall(State& s, const std::vector<Val>& ret) { // set result of the call instruction of the top frame and advance
  Frame& f = s.st.back(); PInst& p = f.f->bb[f.bb].ins[f.pc];
  if (p.dst >= 0) for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = i < ret.size() ? ret[i] : C(0);
  if (p.op == Instruction::Invoke) jump(s, f, p.x[0]); else f.pc++;
}

// ---------- exceptions ----------
static std::unordered_map<uint64_t, int> typeIds;
static int typeIdFor(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }
static uint64_t vtClass = 0, vtSI = 0, vtVMI = 0, vtPtr = 0;
static bool sameTI(State& s, uint64_t a, uint64_t b) { if (a == b) return true; if (!a || !b) return false; Obj* oa = s.mem.find(a); Obj* ob = s.mem.find(b); if (!oa || !ob || oa->size < 16 || ob->size < 16) return false; uint64_t na = rd64(s, a + 8), nb = rd64(s, b + 8); if (na == nb) return true; if (!s.mem.find(na) || !s.mem.find(nb)) return false; return rdStr(s, na) == rdStr(s, nb); }
// offsets at which `base` occurs in `ti`
static void findBases(State& s, uint64_t ti, uint64_t base, uint64_t obj, int64_t off, std::vector<int64_t>& out) {
  if (sameTI(s, ti, base)) { if (std::find(out.begin(), out.end(), off) == out.end()) out.push_back(off); return; }
  Obj* o = s.mem.find(ti); if (!o || o->size < 16) return; uint64_t vt = rd64(s, ti);
  if (vt == vtSI) findBases(s, rd64(s, ti + 16), base, obj, off, out);
  else if (vt == vtVMI) { Val nb = loadVal(s, C(ti + 20), 0, 32); uint64_t n = (uint64_t)cv(nb); for (uint64_t i = 0; i < n; i++) { uint64_t bt = rd64(s, ti + 24 + 16 * i); int64_t fl = (int64_t)rd64(s, ti + 32 + 16 * i); int64_t bo = fl >> 8; if (fl & 1) { if (!obj) continue; uint64_t vptr = rd64(s, obj + off); bo = (int64_t)rd64(s, vptr + bo); } findBases(s, bt, base, obj, off + bo, out); } }
}
static bool canCatch(State& s, const ExcRec& e, uint64_t cti, uint64_t& adj) {
  if (!cti) { adj = e.obj; return true; }
  if (sameTI(s, e.type, cti)) { adj = e.obj; return true; }
  std::vector<int64_t> o; findBases(s, e.type, cti, e.obj, 0, o); if (o.size() == 1) { adj = e.obj + o[0]; return true; }
  return false;
}
static ExcRec* excOf(State& s, uint64_t obj) { for (int i = (int)s.exc.size() - 1; i >= 0; i--) if (s.exc[i].obj == obj) return &s.exc[i]; return nullptr; }
static std::string excDesc(State& s, ExcRec* e) {
  if (!e) return "?"; std::string r; Obj* o = s.mem.find(e->type); if (o && o->name) r = demangle(*o->name); 
  if (o && o->size >= 16) { uint64_t na = rd64(s, e->type + 8); if (s.mem.find(na)) { r = demangle("_Z" + rdStr(s, na)); if (r.compare(0, 2, "_Z") == 0) r = r.substr(2); } } return r;
}
static void unwind(State& s, uint64_t obj) {
  ExcRec* e = excOf(s, obj); std::string where = locOf(s, 6);
  while (!s.st.empty()) {
    Frame& f = s.st.back(); PInst& p = f.f->bb[f.bb].ins[f.pc];
    if (p.op == Instruction::Invoke) {
      unsigned ub = p.x[1]; PBlock& b = f.f->bb[ub]; PInst& lp = b.ins[b.nphi]; auto* L = cast<LandingPadInst>(lp.I);
      bool hit = false; uint64_t sel = 0, adj = obj;
      for (unsigned i = 0; i < L->getNumClauses() && !hit; i++) {
        if (L->isCatch(i)) { uint64_t ti = (uint64_t)cv(lp.ops[i].c[0]); if (canCatch(s, *e, ti, adj)) { hit = true; sel = typeIdFor(ti); } }
        else { bool any = false; for (unsigned k = 0; k < lp.ops[i].n; k++) if (canCatch(s, *e, (uint64_t)cv(lp.ops[i].c[k]), adj)) any = true; if (!any) { hit = true; sel = (uint64_t)(int64_t)-1; } }
      }
      if (hit || L->isCleanup()) {
        e->adj = adj; jump(s, f, ub); f.r[lp.dst] = C(obj); f.r[lp.dst + 1] = C(hit ? sel & 0xffffffff : 0); f.pc++; return;
      }
    }
    popFrame(s);
  }
  violation(s, "uncaught", "uncaught exception of type " + excDesc(s, e) + " thrown at " + where, s.model); endPath();
}

// ---------- builtins ----------
typedef std::vector<Val> Vals;
enum class R { DONE, JUMPED };  // JUMPED: control state already updated (frame pushed, unwinding)
struct CallCtx { State& s; PInst& p; Vals& a; std::vector<unsigned>& w; Vals ret; };
typedef R (*BI)(CallCtx&);
static std::unordered_map<std::string, BI> builtins;

static Obj* allocObj(State& s, uint64_t n, OK k) { if (n > (64ull << 20)) { violation(s, "alloc", "allocation of " + std::to_string(n) + " bytes (resource exhaustion)", s.model); endPath(); } return s.mem.alloc(n, k); }
static void checkRange(State& s, uint64_t a, uint64_t n, const char* what) { if (n) checkAddr(s, a, n, what); }
static void doCopy(State& s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return; Obj* so = checkAddr(s, src, n, "memcpy source"); Obj* dob = checkAddr(s, d, n, "memcpy destination");
  if (dob->kind == O_CONST) { violation(s, "memory", "write to constant memory", s.model); endPath(); }
  uint64_t soff = src - so->base, doff = d - dob->base; bool same = so == dob; dob = s.mem.write(dob); if (same) so = dob;
  if (!so->nsym) { memmove(dob->data + doff, so->data + soff, n); if (dob->nsym) for (uint64_t i = 0; i < n; i++) if (dob->sym[doff + i]) { dob->sym[doff + i] = nullptr; dob->nsym--; } return; }
  std::vector<E> es(n); for (uint64_t i = 0; i < n; i++) es[i] = so->sym[soff + i]; std::vector<uint8_t> bs(so->data + soff, so->data + soff + n);
  for (uint64_t i = 0; i < n; i++) { if (es[i]) setByte(dob, doff + i, es[i]); else { dob->data[doff + i] = bs[i]; if (dob->nsym && dob->sym[doff + i]) { dob->sym[doff + i] = nullptr; dob->nsym--; } } }
}
static Val memcmpV(State& s, uint64_t a, uint64_t b, uint64_t n, bool bc) {
  if (!n) return C(0); Obj* x = checkAddr(s, a, n, "memcmp"); Obj* y = checkAddr(s, b, n, "memcmp"); uint64_t xo = a - x->base, yo = b - y->base;
  E acc = M.cst(0, 32);
  for (int64_t i = (int64_t)n - 1; i >= 0; i--) { E p = byteAt(x, xo + i), q = byteAt(y, yo + i); E eq = M.bin(K::EQ, p, q);
    E d = bc ? M.cst(1, 32) : M.ite(M.bin(K::ULT, p, q), M.cst(0xffffffffu, 32), M.cst(1, 32)); acc = M.ite(eq, acc, d); }
  return fromE(acc);
}
static double callMath1(const std::string& n, double x);
static double callMath2(const std::string& n, double x, double y);
static u128 ufEvalFn(const std::string& n, u128 a, u128 b, unsigned w);
static void mathFn(const std::string& n, unsigned k);

static uint64_t A(CallCtx& c, unsigned i, unsigned w = 64) { return concretize(c.s, c.a[i], w); }
static R bi_malloc(CallCtx& c) { c.ret = {C(allocObj(c.s, A(c, 0), O_MALLOC)->base)}; return R::DONE; }
static R bi_new(CallCtx& c) { c.ret = {C(allocObj(c.s, A(c, 0), O_NEW)->base)}; return R::DONE; }
static R bi_newarr(CallCtx& c) { c.ret = {C(allocObj(c.s, A(c, 0), O_NEWARR)->base)}; return R::DONE; }
static R freeK(CallCtx& c, OK k) { uint64_t p = A(c, 0); if (!p) return R::DONE; Obj* o = c.s.mem.find(p); if (!o || o->base != p || (o->kind != k)) { violation(c.s, "memory", !o ? "double free or free of unmapped memory" : "invalid free of " + objDesc(o), c.s.model); endPath(); } c.s.mem.release(o); return R::DONE; }
static R bi_noop(CallCtx& c) { return R::DONE; }
static R bi_ret0(CallCtx& c) { c.ret = {C(0)}; return R::DONE; }

static R callFn(State& s, Function* F, Vals args, std::vector<unsigned> widths) { pushFrame(s, F, args, widths); return R::JUMPED; }

static void addBuiltins() {
  auto& b = builtins;
  b["malloc"] = bi_malloc; b["_Znwm"] = bi_new; b["_Znam"] = bi_newarr; b["_ZnwmSt11align_val_t"] = bi_new; b["_ZnamSt11align_val_t"] = bi_newarr; b["_ZnwmRKSt9nothrow_t"] = bi_new; b["_ZnamRKSt9nothrow_t"] = bi_newarr;
  b["calloc"] = [](CallCtx& c) { Obj* o = allocObj(c.s, A(c, 0) * A(c, 1), O_MALLOC); memset(o->data, 0, o->size); c.ret = {C(o->base)}; return R::DONE; };
  b["realloc"] = [](CallCtx& c) { uint64_t p = A(c, 0), n = A(c, 1); Obj* o = allocObj(c.s, n, O_MALLOC); if (p) { Obj* x = c.s.mem.find(p); doCopy(c.s, o->base, p, std::min(n, x->size)); c.s.mem.release(c.s.mem.find(p)); } c.ret = {C(o->base)}; return R::DONE; };
  b["free"] = [](CallCtx& c) { return freeK(c, O_MALLOC); };
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) b[n] = [](CallCtx& c) { return freeK(c, O_NEW); };
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) b[n] = [](CallCtx& c) { return freeK(c, O_NEWARR); };
  b["memcpy"] = b["memmove"] = [](CallCtx& c) { doCopy(c.s, A(c, 0), A(c, 1), A(c, 2)); c.ret = {c.a[0]}; return R::DONE; };
  b["memset"] = [](CallCtx& c) { uint64_t d = A(c, 0), n = A(c, 2); Val v = c.a[1]; E e = toE(v, 32); e = M.extract(e, 0, 8); if (n) { Obj* o = checkAddr(c.s, d, n, "memset"); o = c.s.mem.write(o); for (uint64_t i = 0; i < n; i++) setByte(o, d - o->base + i, e); } c.ret = {c.a[0]}; return R::DONE; };
  b["memcmp"] = [](CallCtx& c) { c.ret = {memcmpV(c.s, A(c, 0), A(c, 1), A(c, 2), false)}; return R::DONE; };
  b["bcmp"] = [](CallCtx& c) { c.ret = {memcmpV(c.s, A(c, 0), A(c, 1), A(c, 2), true)}; return R::DONE; };
  b["abort"] = [](CallCtx& c) -> R { violation(c.s, "abort", "abort() called", c.s.model); endPath(); return R::DONE; };
  b["_ZSt9terminatev"] = [](CallCtx& c) -> R { violation(c.s, "abort", "std::terminate() called", c.s.model); endPath(); return R::DONE; };
  b["__cxa_pure_virtual"] = [](CallCtx& c) -> R { violation(c.s, "abort", "pure virtual call", c.s.model); endPath(); return R::DONE; };
  b["__assert_fail"] = [](CallCtx& c) -> R { violation(c.s, "assert", "assertion failed: " + rdStr(c.s, A(c, 0)), c.s.model); endPath(); return R::DONE; };
  b["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](CallCtx& c) -> R { violation(c.s, "assert", "libstdc++ assertion failed", c.s.model); endPath(); return R::DONE; };
  b["__cxa_atexit"] = bi_ret0; b["atexit"] = bi_ret0; b["__cxa_thread_atexit"] = bi_ret0;
  b["__cxa_guard_acquire"] = [](CallCtx& c) { uint64_t g = A(c, 0); Val v = loadVal(c.s, C(g), 0, 8); if (cv(v) & 1) c.ret = {C(0)}; else { storeVal(c.s, C(g), 0, 8, C(1)); c.ret = {C(1)}; } return R::DONE; };
  b["__cxa_guard_release"] = bi_noop; b["__cxa_guard_abort"] = [](CallCtx& c) { storeVal(c.s, C(A(c, 0)), 0, 8, C(0)); return R::DONE; };
  b["pthread_mutex_lock"] = bi_ret0; b["pthread_mutex_unlock"] = bi_ret0; b["pthread_once"] = bi_ret0;
  b["__cxa_allocate_exception"] = [](CallCtx& c) { c.ret = {C(allocObj(c.s, A(c, 0), O_EXC)->base)}; return R::DONE; };
  b["__cxa_free_exception"] = [](CallCtx& c) { uint64_t p = A(c, 0); Obj* o = c.s.mem.find(p); if (o) c.s.mem.release(o); return R::DONE; };
  b["__cxa_throw"] = [](CallCtx& c) { uint64_t o = A(c, 0), t = A(c, 1), d = A(c, 2); for (size_t i = 0; i < c.s.exc.size(); i++) if (c.s.exc[i].obj == o) { c.s.exc.erase(c.s.exc.begin() + i); break; } c.s.exc.push_back({o, t, d, o, 0, false}); c.s.uncaught++; unwind(c.s, o); return R::JUMPED; };
  b["__cxa_rethrow"] = [](CallCtx& c) -> R { if (c.s.caught.empty()) { violation(c.s, "abort", "rethrow without exception", c.s.model); endPath(); } uint64_t o = c.s.caught.back(); excOf(c.s, o)->rethrow = true; c.s.uncaught++; unwind(c.s, o); return R::JUMPED; };
  b["__cxa_begin_catch"] = [](CallCtx& c) { uint64_t o = A(c, 0); ExcRec* e = excOf(c.s, o); e->handlers++; e->rethrow = false; c.s.uncaught--; c.s.caught.push_back(o); c.ret = {C(e->adj)}; return R::DONE; };
  b["__cxa_get_exception_ptr"] = [](CallCtx& c) { ExcRec* e = excOf(c.s, A(c, 0)); c.ret = {C(e->adj)}; return R::DONE; };
  b["__cxa_end_catch"] = [](CallCtx& c) { State& s = c.s; if (s.caught.empty()) return R::DONE; uint64_t o = s.caught.back(); s.caught.pop_back(); ExcRec* e = excOf(s, o); e->handlers--;
    if (e->handlers <= 0 && !e->rethrow) { uint64_t d = e->dtor; for (size_t i = 0; i < s.exc.size(); i++) if (s.exc[i].obj == o) { s.exc.erase(s.exc.begin() + i); break; }
      auto it = fnByAddr.find(d); if (d && it != fnByAddr.end() && !it->second->isDeclaration()) return callFn(s, it->second, {C(o)}, {64}); } return R::DONE; };
  b["_Unwind_Resume"] = [](CallCtx& c) { unwind(c.s, A(c, 0)); return R::JUMPED; };
  b["__clang_call_terminate"] = b["_ZSt9terminatev"];
  b["_ZSt18uncaught_exceptionv"] = [](CallCtx& c) { c.ret = {C(c.s.uncaught > 0)}; return R::DONE; };
  b["_ZSt19uncaught_exceptionsv"] = [](CallCtx& c) { c.ret = {C(c.s.uncaught)}; return R::DONE; };
  b["__dynamic_cast"] = [](CallCtx& c) { State& s = c.s; uint64_t p = A(c, 0), dst = A(c, 2); if (!p) { c.ret = {C(0)}; return R::DONE; }
    uint64_t vp = rd64(s, p); int64_t top = (int64_t)rd64(s, vp - 16); uint64_t ti = rd64(s, vp - 8); uint64_t whole = p + top; std::vector<int64_t> o; findBases(s, ti, dst, whole, 0, o);
    c.ret = {C(o.size() == 1 ? whole + o[0] : 0)}; if (o.size() > 1) c.ret = {C(whole + o[0])}; return R::DONE; };
  b["__errno_location"] = [](CallCtx& c) { static GlobalVariable* g = MOD->getNamedGlobal("vp_errno"); c.ret = {C(g ? gaddr[g] : 0)}; return R::DONE; };
  // decimal digits of a 64-bit unsigned value, most significant first; forks on the number of digits only
  b["vp_udec"] = [](CallCtx& c) { uint64_t o = A(c, 1); Val v = c.a[0]; E e = toE(v, 64); E x = e; for (;;) { if (x->k == K::ZEXT) x = x->a; else if (x->k == K::ITE) x = branch(c.s, fromE(x->a)) ? x->b : x->c; else break; } unsigned w = std::max<unsigned>(x->w, 8u); if (x->w < w) x = M.zext(x, w);
    unsigned n = 1; u128 p = 10; for (; n < 20; n++, p *= 10) { if (w < 64 && p > m64(w)) break; if (branch(c.s, fromE(M.bin(K::ULT, x, M.cst(p, w))))) break; }
    u128 d = 1; for (unsigned i = 0; i < n; i++, d *= 10) { E q = M.bin(K::UDIV, x, M.cst(d, w)); E r = M.bin(K::UREM, q, M.cst(10, w)); storeVal(c.s, C(o + n - 1 - i), 0, 8, fromE(M.bin(K::ADD, M.extract(r, 0, 8), M.cst('0', 8)))); }
    c.ret = {C(n)}; return R::DONE; };
  b["vp_double_to_text"] = [](CallCtx& c) { if (!isC(c.a[0])) fatalPath(c.s, "formatting a symbolic double"); double d = ExprMgr::asD(cv(c.a[0]), 64); int p = (int)A(c, 1, 32), st = (int)A(c, 2, 32); char t[400]; int n = snprintf(t, sizeof t, st == 1 ? "%.*f" : st == 2 ? "%.*e" : "%.*g", p, d); uint64_t o = A(c, 3); for (int i = 0; i < n; i++) storeVal(c.s, C(o + i), 0, 8, C((uint8_t)t[i])); c.ret = {C(n)}; return R::DONE; };
  // harness interface
  b["vp_sym"] = [](CallCtx& c) { std::string n = rdStr(c.s, A(c, 0)); unsigned w = (unsigned)A(c, 1, 32); int k = c.s.symCount[n]++; std::string full = n + "#" + std::to_string(k);
    E v; if (replay) { auto it = fixedInputs.find(full); v = M.cst(it == fixedInputs.end() ? 0 : it->second, w); } else { v = M.var(full, w); uint32_t idx = v->aux; if (c.s.model.size() <= idx) c.s.model.resize(idx + 1, 0); }
    c.s.inputs.push_back({full, w, v}); c.ret = {fromE(M.zext(v, 64))}; return R::DONE; };
  b["vp_param"] = [](CallCtx& c) { std::string n = rdStr(c.s, A(c, 0)); auto it = params.find(n); c.ret = {it == params.end() ? c.a[1] : C(it->second)}; return R::DONE; };
  b["vp_assume"] = [](CallCtx& c) { Val v = c.a[0]; if (isC(v)) { if (!(cv(v) & 1)) { nKilledAssume++; endPath(); } return R::DONE; } E e = M.extract(v.e, 0, 1); Model m; if (satWith(c.s, e, m) != Sat::SAT) { nKilledAssume++; endPath(); } addPc(c.s, e, &m); return R::DONE; };
  b["vp_check"] = [](CallCtx& c) { nChecks++; Val v = c.a[0]; std::string msg = rdStr(c.s, A(c, 1)); if (!isC(v)) nChecksSym++; Val n = isC(v) ? C(!(cv(v) & 1)) : fromE(M.bnot(M.extract(v.e, 0, 1)));
    errorIf(c.s, n, "check", msg); return R::DONE; };
  b["vp_reach"] = [](CallCtx& c) { std::string l = rdStr(c.s, A(c, 0)); reachCnt[l]++; if (!reached.count(l)) { // vacuity twin: the assertion "false" here must be violated
      Model m = c.s.model; if (SV->check(c.s.pc, M.tru(), &m) == Sat::SAT || c.s.pc.empty()) reached.insert(l); } return R::DONE; };
  b["vp_observe"] = [](CallCtx& c) { c.s.obs.push_back({rdStr(c.s, A(c, 0)), c.a[1]}); return R::DONE; };
  b["vp_concretize"] = [](CallCtx& c) { c.ret = {C(A(c, 0))}; return R::DONE; };
  b["vp_fork"] = [](CallCtx& c) { c.ret = {C(branch(c.s, isC(c.a[0]) ? C(cv(c.a[0]) & 1) : fromE(M.extract(c.a[0].e, 0, 1))))}; return R::DONE; };
  // what runs between vp_isolated_begin() != 0 and vp_isolated_end() runs as in another process: only the bytes given to vp_isolated_end() are kept
  b["vp_isolated_begin"] = [](CallCtx& c) { State& s = c.s; if (s.isoBack) { s.isoBack = false; c.ret = {C(0)}; return R::DONE; } if (s.snap) fatalPath(s, "nested isolation"); s.snap.reset(new Snap{s.mem, s.st, s.exc, s.caught, s.uncaught, s.pending}); c.ret = {C(1)}; return R::DONE; };
  b["vp_isolated_end"] = [](CallCtx& c) { State& s = c.s; uint64_t a = A(c, 0), n = A(c, 1); if (!s.snap) fatalPath(s, "end of isolation without its begin"); std::vector<Val> out; for (uint64_t i = 0; i < n; i++) out.push_back(loadVal(s, C(a + i), 0, 8)); s.iso.push_back(std::move(out));
    auto k = s.snap; s.snap.reset(); { Mem m(k->mem); s.mem.swap(m); } s.st = k->st; s.exc = k->exc; s.caught = k->caught; s.uncaught = k->uncaught; s.pending = k->pending; s.isoBack = true; return R::JUMPED; };
  b["vp_isolated_size"] = [](CallCtx& c) { uint64_t k = A(c, 0, 32); c.ret = {C(k < c.s.iso.size() ? c.s.iso[k].size() : 0)}; return R::DONE; };
  b["vp_isolated_read"] = [](CallCtx& c) { State& s = c.s; uint64_t k = A(c, 0, 32), o = A(c, 1); if (k < s.iso.size()) for (size_t i = 0; i < s.iso[k].size(); i++) { Val v = s.iso[k][i]; storeVal(s, C(o + i), 0, 8, v); } return R::DONE; };
  b["vp_is_sym"] = [](CallCtx& c) { c.ret = {C(!isC(c.a[0]))}; return R::DONE; };
  b["vp_fail"] = [](CallCtx& c) -> R { nChecks++; violation(c.s, "check", rdStr(c.s, A(c, 0)), c.s.model); endPath(); return R::DONE; };
  b["vp_stop"] = [](CallCtx& c) -> R { c.s.st.clear(); throw PathEnd{}; return R::DONE; };
  b["vp_print"] = [](CallCtx& c) { fprintf(stderr, "[vp] %s\n", rdStr(c.s, A(c, 0)).c_str()); return R::DONE; };
  b["vp_printv"] = [](CallCtx& c) { if (isC(c.a[1])) fprintf(stderr, "[vp] %s = %lld\n", rdStr(c.s, A(c, 0)).c_str(), (long long)cv(c.a[1])); else fprintf(stderr, "[vp] %s = <symbolic>\n", rdStr(c.s, A(c, 0)).c_str()); return R::DONE; };
  for (auto n : {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "exp2", "log2", "log10", "cbrt", "expm1", "log1p"}) mathFn(n, 1);
  for (auto n : {"pow", "atan2", "fmod", "hypot"}) mathFn(n, 2);
  b["sqrt"] = [](CallCtx& c) { c.ret = {fromE(M.fsqrt(toE(c.a[0], 64)))}; return R::DONE; };
  b["vp_strtod16"] = [](CallCtx& c) { c.ret = {isC(c.a[0]) && isC(c.a[1]) ? C((uint64_t)ufEvalFn("strtod16", cv(c.a[0]), cv(c.a[1]), 64)) : fromE(M.uf("strtod16", toE(c.a[0], 64), toE(c.a[1], 64)))}; return R::DONE; };
  b["vp_concrete"] = [](CallCtx& c) { uint64_t a = A(c, 0), n = A(c, 1); bool k = true; for (uint64_t i = 0; i < n; i++) k = k && isC(loadVal(c.s, C(a + i), 0, 8)); c.ret = {C(k)}; return R::DONE; };
  b["vp_strtod_concrete"] = [](CallCtx& c) { std::string t = rdStr(c.s, A(c, 0)); const char* p = t.c_str(); char* e; errno = 0; double d = strtod(p, &e); uint64_t ep = A(c, 1); if (ep) storeVal(c.s, C(ep), 0, 64, C((uint64_t)cv(c.a[0]) + (e - p)));
    static GlobalVariable* g = MOD->getNamedGlobal("vp_errno"); if (errno && g) storeVal(c.s, C(gaddr[g]), 0, 32, C(errno)); uint64_t x; memcpy(&x, &d, 8); c.ret = {C(x)}; return R::DONE; };
}
static std::set<std::string> mathNames;
#define MATH1 X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) X(exp) X(log) X(exp2) X(log2) X(log10) X(cbrt) X(expm1) X(log1p)
#define MATH2 X(pow) X(atan2) X(fmod) X(hypot)
static double callMath1(const std::string& n, double x) {
#define X(f) if (n == #f) return ::f(x);
  MATH1
#undef X
  fprintf(stderr, "math %s\n", n.c_str()); exit(3);
}
static double callMath2(const std::string& n, double x, double y) {
#define X(f) if (n == #f) return ::f(x, y);
  MATH2
#undef X
  fprintf(stderr, "math %s\n", n.c_str()); exit(3);
}
static u128 ufEvalFn(const std::string& n, u128 a, u128 b, unsigned w) {
  if (n == "strtod16") { char t[17]; uint64_t x = (uint64_t)a, y = (uint64_t)b; memcpy(t, &x, 8); memcpy(t + 8, &y, 8); t[16] = 0; return ExprMgr::fromD(strtod(t, nullptr), 64); }
  double x = ExprMgr::asD(a, 64); bool two = n == "pow" || n == "atan2" || n == "fmod" || n == "hypot";
  return ExprMgr::fromD(two ? callMath2(n, x, ExprMgr::asD(b, 64)) : callMath1(n, x), 64);
}
static R mathCall(CallCtx& c, const std::string& n, unsigned k) {
  if (isC(c.a[0]) && (k < 2 || isC(c.a[1]))) { c.ret = {C((uint64_t)ufEvalFn(n, cv(c.a[0]), k > 1 ? cv(c.a[1]) : 0, 64))}; return R::DONE; }
  c.ret = {fromE(M.uf(n, toE(c.a[0], 64), k > 1 ? toE(c.a[1], 64) : nullptr))}; return R::DONE;
}
static std::string curMath; 
static void mathFn(const std::string& n, unsigned k) { mathNames.insert(n); builtins[n] = nullptr; }

// ---------- intrinsics ----------
static E fabsE(E e) { return M.bin(K::AND, e, M.cst(maskw(e->w - 1), e->w)); }
static bool intrinsic(CallCtx& c, unsigned id, R& r) {
  State& s = c.s; unsigned w = c.p.w; r = R::DONE; auto& a = c.a;
  auto arg = [&](unsigned i) { return toE(a[i], c.w[i]); };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(s, A(c, 0), A(c, 1), A(c, 2, c.w[2])); return true;
    case Intrinsic::memset: { uint64_t d = A(c, 0), n = A(c, 2, c.w[2]); if (n) { Obj* o = checkAddr(s, d, n, "memset"); o = s.mem.write(o); E e = toE(a[1], 8); for (uint64_t i = 0; i < n; i++) setByte(o, d - o->base + i, e); } return true; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch: c.ret = {C(0)}; return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: c.ret = {a[0]}; return true;
    case Intrinsic::stacksave: c.ret = {C(0)}; return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::is_constant: c.ret = {C(0)}; return true;
    case Intrinsic::objectsize: c.ret = {C(m64(w))}; return true;
    case Intrinsic::eh_typeid_for: c.ret = {C(typeIdFor(A(c, 0)))}; return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: violation(s, "trap", "trap executed", s.model); endPath(); return true;
    case Intrinsic::ubsantrap: { unsigned k = (unsigned)A(c, 0, 8); static const std::map<unsigned, std::string> nm = {{0, "signed integer addition overflow"}, {1, "builtin unreachable"}, {3, "integer division overflow or division by zero"}, {5, "float cast overflow"}, {12, "signed integer multiplication overflow"}, {13, "signed integer negation overflow"}, {20, "shift out of bounds"}, {21, "signed integer subtraction overflow"}, {18, "out of bounds"}, {22, "type mismatch"}, {10, "invalid value"}, {11, "missing return"}};
      auto it = nm.find(k); violation(s, "ub", "undefined behaviour: " + (it == nm.end() ? "kind " + std::to_string(k) : it->second), s.model); endPath(); return true; }
    case Intrinsic::abs: { E x = arg(0); c.ret = {fromE(M.ite(M.bin(K::SLT, x, M.cst(0, w)), M.bin(K::SUB, M.cst(0, w), x), x))}; return true; }
    case Intrinsic::smax: if (w == 64) { bool b = branch(s, fromE(M.bin(K::SLT, arg(0), arg(1)))); c.ret = {b ? a[1] : a[0]}; return true; } c.ret = {fromE(M.ite(M.bin(K::SLT, arg(0), arg(1)), arg(1), arg(0)))}; return true;
    case Intrinsic::smin: if (w == 64) { bool b = branch(s, fromE(M.bin(K::SLT, arg(0), arg(1)))); c.ret = {b ? a[0] : a[1]}; return true; } c.ret = {fromE(M.ite(M.bin(K::SLT, arg(0), arg(1)), arg(0), arg(1)))}; return true;
    case Intrinsic::umax: if (w == 64) { bool b = branch(s, fromE(M.bin(K::ULT, arg(0), arg(1)))); c.ret = {b ? a[1] : a[0]}; return true; } c.ret = {fromE(M.ite(M.bin(K::ULT, arg(0), arg(1)), arg(1), arg(0)))}; return true;
    case Intrinsic::umin: if (w == 64) { bool b = branch(s, fromE(M.bin(K::ULT, arg(0), arg(1)))); c.ret = {b ? a[0] : a[1]}; return true; } c.ret = {fromE(M.ite(M.bin(K::ULT, arg(0), arg(1)), arg(0), arg(1)))}; return true;
    case Intrinsic::usub_sat: c.ret = {fromE(M.ite(M.bin(K::ULT, arg(0), arg(1)), M.cst(0, w), M.bin(K::SUB, arg(0), arg(1))))}; return true;
    case Intrinsic::uadd_sat: { E t = M.bin(K::ADD, arg(0), arg(1)); c.ret = {fromE(M.ite(M.bin(K::ULT, t, arg(0)), M.cst(maskw(w), w), t))}; return true; }
    case Intrinsic::uadd_with_overflow: { E t = M.bin(K::ADD, arg(0), arg(1)); c.ret = {fromE(t), fromE(M.bin(K::ULT, t, arg(0)))}; return true; }
    case Intrinsic::usub_with_overflow: c.ret = {fromE(M.bin(K::SUB, arg(0), arg(1))), fromE(M.bin(K::ULT, arg(0), arg(1)))}; return true;
    case Intrinsic::umul_with_overflow: { if (w > 64) fatalPath(s, "wide umul.with.overflow"); E p = M.bin(K::MUL, M.zext(arg(0), 2 * w), M.zext(arg(1), 2 * w)); c.ret = {fromE(M.extract(p, 0, w)), fromE(M.bnot(M.bin(K::EQ, M.extract(p, w, w), M.cst(0, w))))}; return true; }
    case Intrinsic::sadd_with_overflow: { E x = M.sext(arg(0), w + 1), y = M.sext(arg(1), w + 1), t = M.bin(K::ADD, x, y); E lo = M.extract(t, 0, w); c.ret = {fromE(lo), fromE(M.bnot(M.bin(K::EQ, M.extract(t, w, 1), M.extract(t, w - 1, 1))))}; return true; }
    case Intrinsic::ssub_with_overflow: { E x = M.sext(arg(0), w + 1), y = M.sext(arg(1), w + 1), t = M.bin(K::SUB, x, y); c.ret = {fromE(M.extract(t, 0, w)), fromE(M.bnot(M.bin(K::EQ, M.extract(t, w, 1), M.extract(t, w - 1, 1))))}; return true; }
    case Intrinsic::smul_with_overflow: { if (w > 64) fatalPath(s, "wide smul"); E p = M.bin(K::MUL, M.sext(arg(0), 2 * w), M.sext(arg(1), 2 * w)); E lo = M.extract(p, 0, w); c.ret = {fromE(lo), fromE(M.bnot(M.bin(K::EQ, p, M.sext(lo, 2 * w))))}; return true; }
    case Intrinsic::ctlz: { E x = arg(0); E acc = M.cst(w, w); for (unsigned i = 0; i < w; i++) acc = M.ite(M.extract(x, i, 1), M.cst(w - 1 - i, w), acc); c.ret = {fromE(acc)}; return true; }
    case Intrinsic::cttz: { E x = arg(0); E acc = M.cst(w, w); for (int i = (int)w - 1; i >= 0; i--) acc = M.ite(M.extract(x, i, 1), M.cst(i, w), acc); c.ret = {fromE(acc)}; return true; }
    case Intrinsic::ctpop: { E x = arg(0); E acc = M.cst(0, w); for (unsigned i = 0; i < w; i++) acc = M.bin(K::ADD, acc, M.zext(M.extract(x, i, 1), w)); c.ret = {fromE(acc)}; return true; }
    case Intrinsic::bswap: { E x = arg(0); E acc = M.extract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) acc = M.concat(acc, M.extract(x, 8 * i, 8)); c.ret = {fromE(acc)}; return true; }
    case Intrinsic::bitreverse: { E x = arg(0); E acc = M.extract(x, 0, 1); for (unsigned i = 1; i < w; i++) acc = M.concat(acc, M.extract(x, i, 1)); c.ret = {fromE(acc)}; return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { E x = arg(0), y = arg(1), sh = M.bin(K::UREM, arg(2), M.cst(w, w)); E cc = M.concat(x, y); E s2 = M.zext(sh, 2 * w); if (id == Intrinsic::fshl) c.ret = {fromE(M.extract(M.bin(K::SHL, cc, s2), w, w))}; else c.ret = {fromE(M.extract(M.bin(K::LSHR, cc, s2), 0, w))}; return true; }
    case Intrinsic::fabs: if (w <= 64) { c.ret = {fromE(fabsE(arg(0)))}; return true; } break;
    case Intrinsic::copysign: { E x = fabsE(arg(0)); c.ret = {fromE(M.bin(K::OR, x, M.bin(K::AND, arg(1), M.cst((u128)1 << (w - 1), w))))}; return true; }
    case Intrinsic::sqrt: c.ret = {fromE(M.fsqrt(arg(0)))}; return true;
    case Intrinsic::sin: r = mathCall(c, "sin", 1); return true; case Intrinsic::cos: r = mathCall(c, "cos", 1); return true; case Intrinsic::exp: r = mathCall(c, "exp", 1); return true; case Intrinsic::log: r = mathCall(c, "log", 1); return true; case Intrinsic::pow: r = mathCall(c, "pow", 2); return true;
    case Intrinsic::exp2: r = mathCall(c, "exp2", 1); return true; case Intrinsic::log2: r = mathCall(c, "log2", 1); return true; case Intrinsic::log10: r = mathCall(c, "log10", 1); return true;
    case Intrinsic::fmuladd: c.ret = {fromE(M.fbin(K::FADD, M.fbin(K::FMUL, arg(0), arg(1)), arg(2)))}; return true;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: if (isC(a[0])) { double d = ExprMgr::asD(cv(a[0]), w), q = id == Intrinsic::floor ? floor(d) : id == Intrinsic::ceil ? ceil(d) : id == Intrinsic::trunc ? trunc(d) : id == Intrinsic::round ? round(d) : nearbyint(d); c.ret = {C((uint64_t)ExprMgr::fromD(q, w))}; return true; } break;
    case Intrinsic::is_fpclass: { if (w != 1 || c.w[0] > 64) break; unsigned mask = (unsigned)A(c, 1, 32); E x = arg(0); unsigned W = x->w, mb = W == 64 ? 52 : 23; E ex = M.extract(x, mb, W - 1 - mb), mn = M.extract(x, 0, mb), sg = M.extract(x, W - 1, 1); E exAll = M.bin(K::EQ, ex, M.cst(maskw(ex->w), ex->w)), exZ = M.bin(K::EQ, ex, M.cst(0, ex->w)), mnZ = M.bin(K::EQ, mn, M.cst(0, mb)); E q = M.extract(x, mb - 1, 1);
      E acc = M.fls(); auto add = [&](unsigned bit, E cnd) { if (mask & (1u << bit)) acc = M.bor(acc, cnd); }; E nan = M.band(exAll, M.bnot(mnZ)), inf = M.band(exAll, mnZ), zero = M.band(exZ, mnZ), sub = M.band(exZ, M.bnot(mnZ)), nor = M.band(M.bnot(exZ), M.bnot(exAll)); E neg = sg, pos = M.bnot(sg);
      add(0, M.band(nan, M.bnot(q))); add(1, M.band(nan, q)); add(2, M.band(inf, neg)); add(3, M.band(nor, neg)); add(4, M.band(sub, neg)); add(5, M.band(zero, neg)); add(6, M.band(zero, pos)); add(7, M.band(sub, pos)); add(8, M.band(nor, pos)); add(9, M.band(inf, pos)); c.ret = {fromE(acc)}; return true; }
    case Intrinsic::vastart: { // x86-64 va_list: all args placed in the overflow area
      Frame& f = s.st.back(); Obj* o = s.mem.alloc(8 * f.va.size() + 8, O_STACK); f.allocas.push_back(o->base); for (size_t i = 0; i < f.va.size(); i++) writeRaw(o, 8 * i, 64, f.va[i].e ? fromE(M.zext(f.va[i].e, 64)) : f.va[i]); uint64_t l = A(c, 0);
      storeVal(s, C(l), 0, 32, C(48)); storeVal(s, C(l), 4, 32, C(304)); storeVal(s, C(l), 8, 64, C(o->base)); storeVal(s, C(l), 16, 64, C(0)); return true; }
    case Intrinsic::vaend: return true;
    case Intrinsic::vacopy: doCopy(s, A(c, 0), A(c, 1), 24); return true;
    case Intrinsic::type_test: c.ret = {C(1)}; return true;
    case Intrinsic::load_relative: { uint64_t b = A(c, 0), o = A(c, 1, c.w[1]); Val v = loadVal(s, C(b + o), 0, 32); c.ret = {C(b + (int64_t)(int32_t)cv(v))}; return true; }
    default: break;
  }
  return false;
}

static R doCall(State& s, PInst& p, Function* F, Vals& args, std::vector<unsigned>& widths, Vals& ret) {
  CallCtx c{s, p, args, widths, {}};
  R r = R::DONE;
  if (F->isIntrinsic()) { if (!intrinsic(c, F->getIntrinsicID(), r)) fatalPath(s, "unsupported intrinsic " + F->getName().str()); ret = c.ret; return r; }
  auto it = builtins.find(F->getName().str());
  if (it != builtins.end()) { if (!it->second) r = mathCall(c, it->first, (it->first == "pow" || it->first == "atan2" || it->first == "fmod" || it->first == "hypot") ? 2 : 1); else r = it->second(c); ret = c.ret; return r; }
  if (F->isDeclaration()) { externsUsed.insert(demangle(F->getName().str())); fatalPath(s, "call to external function without a model: " + demangle(F->getName().str())); }
  pushFrame(s, F, args, widths); return R::JUMPED;
}

// Values an expression can take judging by its constant leaves only; false when not a small set.
static bool constSet(E e, std::set<uint64_t>& out, unsigned lim, int d = 0) {
  if (e->w > 64 || d > 80) return false; uint64_t m = m64(e->w);
  switch (e->k) {
    case K::CONST: out.insert((uint64_t)e->val); return out.size() <= lim;
    case K::ITE: return constSet(e->b, out, lim, d + 1) && constSet(e->c, out, lim, d + 1) && out.size() <= lim;
    case K::ZEXT: if (e->a->w == 1) { out.insert(0); out.insert(1); return true; } return constSet(e->a, out, lim, d + 1);
    case K::SEXT: { std::set<uint64_t> t; if (e->a->w == 1) t = {0, 1}; else if (!constSet(e->a, t, lim, d + 1)) return false; for (auto x : t) out.insert((uint64_t)(int64_t)sx(x, e->a->w) & m); return out.size() <= lim; }
    case K::EXTRACT: { std::set<uint64_t> t; if (!constSet(e->a, t, lim, d + 1)) return false; for (auto x : t) out.insert((x >> e->aux) & m); return out.size() <= lim; }
    case K::CONCAT: { std::set<uint64_t> t, u; if (!constSet(e->a, t, lim, d + 1) || !constSet(e->b, u, lim, d + 1) || t.size() * u.size() > lim) return false; for (auto x : t) for (auto y : u) out.insert((x << e->b->w | y) & m); return out.size() <= lim; }
    case K::ADD: case K::SUB: case K::MUL: case K::AND: case K::OR: case K::XOR: case K::LSHR: case K::SHL: case K::UDIV: case K::UREM: { std::set<uint64_t> t, u; if (!constSet(e->a, t, lim, d + 1) || !constSet(e->b, u, lim, d + 1) || t.size() * u.size() > lim) return false; for (auto x : t) for (auto y : u) out.insert((uint64_t)M.fold(e->k, x, y, e->w)); return out.size() <= lim; }
    default: return false;
  }
}
static void step(State& s) {
  Frame& f = s.st.back(); PInst& p = f.f->bb[f.bb].ins[f.pc];
  s.steps++; nSteps++;
  if (s.steps > maxSteps) { suspect(s); fatalPath(s, "instruction bound per path exceeded"); }
  auto set = [&](const Val& v) { f.r[p.dst] = v; };
  switch (p.op) {
    case Instruction::Ret: {
      Vals ret; if (!p.ops.empty()) for (unsigned i = 0; i < p.ops[0].n; i++) ret.push_back(get(f, p.ops[0], i));
      popFrame(s); if (!s.st.empty()) finishCall(s, ret); return; }
    case Instruction::Br: if (p.ops.empty()) jump(s, f, p.x[0]); else { bool b = branch(s, get(f, p.ops[0])); jump(s, s.st.back(), b ? p.x[0] : p.x[1]); } return;
    case Instruction::Switch: {
      Val v = get(f, p.ops[0]);
      if (isC(v)) { u128 x = cv(v); unsigned to = p.x[0]; for (size_t i = 1; i < p.x.size(); i += 2) if ((u128)((uint64_t)p.x[i]) == x) { to = p.x[i + 1]; break; } jump(s, f, to); return; }
      std::map<unsigned, E> tg; E none = M.tru(); std::vector<unsigned> order;
      for (size_t i = 1; i < p.x.size(); i += 2) { E c = M.bin(K::EQ, v.e, M.cst((uint64_t)p.x[i], p.w)); none = M.band(none, M.bnot(c)); unsigned t = p.x[i + 1]; if (!tg.count(t)) { tg[t] = c; order.push_back(t); } else tg[t] = M.bor(tg[t], c); }
      unsigned d = p.x[0]; if (tg.count(d)) tg[d] = M.bor(tg[d], none); else { tg[d] = none; order.push_back(d); }
      for (size_t i = 0; i + 1 < order.size(); i++) { if (branch(s, fromE(tg[order[i]]))) { jump(s, s.st.back(), order[i]); return; } }
      jump(s, s.st.back(), order.back()); return; }
    case Instruction::Unreachable: violation(s, "unreachable", "unreachable code executed", s.model); endPath(); return;
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(p.I); Function* F = dyn_cast<Function>(cb->getCalledOperand()); unsigned na = cb->arg_size();
      if (!F) {
        if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty()) { finishCall(s, {C(0)}); return; } fatalPath(s, "inline assembly"); }
        if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(ga->getAliaseeObject());
        if (!F) { uint64_t a = concretize(s, get(f, p.ops[na]), 64); auto it = fnByAddr.find(a); if (it == fnByAddr.end()) { violation(s, "memory", a < 4096 ? "call through null pointer" : "call through invalid function pointer", s.model); endPath(); } F = it->second; }
      }
      Vals args; std::vector<unsigned> widths; for (unsigned i = 0; i < na; i++) { auto& l = layout(cb->getArgOperand(i)->getType()); for (unsigned j = 0; j < p.ops[i].n; j++) { args.push_back(get(f, p.ops[i], j)); widths.push_back(l[j].w); } if (!p.ops[i].n) { args.push_back(C(0)); widths.push_back(64); } }
      for (unsigned i = 0; i < na; i++) if (cb->isByValArgument(i)) { // byval: copy
        uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); uint64_t src = concretize(s, args[i], 64); Obj* o = s.mem.alloc(sz, O_STACK); uint64_t ob = o->base; s.st.back().allocas.push_back(ob); doCopy(s, ob, src, sz); args[i] = C(ob); }
      Vals ret; R r = doCall(s, p, F, args, widths, ret); if (r == R::DONE) finishCall(s, ret); return; }
    case Instruction::Resume: { uint64_t o = concretize(s, get(f, p.ops[0], 0), 64); popFrame(s); if (s.st.empty()) { violation(s, "uncaught", "uncaught exception of type " + excDesc(s, excOf(s, o)), s.model); endPath(); } unwind(s, o); return; }
    case Instruction::Alloca: { uint64_t n = concretize(s, get(f, p.ops[0]), 64); Obj* o = allocObj(s, n * p.x[0], O_STACK); s.st.back().allocas.push_back(o->base); set(C(o->base)); break; }
    case Instruction::Load: { Val a = get(f, p.ops[0]); if (p.lay->size() == 1) { Val v = loadVal(s, a, 0, p.w); s.st.back().r[p.dst] = v; } else for (unsigned i = 0; i < p.n; i++) { Val v = loadVal(s, a, (*p.lay)[i].off, (*p.lay)[i].w); s.st.back().r[p.dst + i] = v; } break; }
    case Instruction::Store: { Val a = get(f, p.ops[1]); for (unsigned i = 0; i < p.lay->size(); i++) storeVal(s, a, (*p.lay)[i].off, (*p.lay)[i].w, get(s.st.back(), p.ops[0], i)); break; }
    case Instruction::GetElementPtr: { Val b = get(f, p.ops[0]); uint64_t off = p.x[0]; bool sym = !isC(b); for (unsigned i = 1; i < p.ops.size() && !sym; i++) sym = !isC(get(f, p.ops[i]));
      if (!sym) { uint64_t a = (uint64_t)cv(b) + off; for (unsigned i = 1; i < p.ops.size(); i++) a += (uint64_t)(int64_t)sx(cv(get(f, p.ops[i])), p.x[2 * i]) * (uint64_t)p.x[2 * i - 1]; set(C(a)); }
      else { E a = M.bin(K::ADD, toE(b, 64), M.cst(off, 64)); for (unsigned i = 1; i < p.ops.size(); i++) { E x = toE(get(f, p.ops[i]), p.x[2 * i]); x = x->w < 64 ? M.sext(x, 64) : M.extract(x, 0, 64); a = M.bin(K::ADD, a, M.bin(K::MUL, x, M.cst((uint64_t)p.x[2 * i - 1], 64))); } set(fromE(a)); } break; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = binop(p.op, get(f, p.ops[0], i), get(f, p.ops[1], i), p.w); break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val a = get(f, p.ops[0]), b = get(f, p.ops[1]); errorIf(s, icmp(CmpInst::ICMP_EQ, b, p.w <= 64 ? C(0) : Val{0, M.cst(0, p.w)}, p.w), "div0", "integer division by zero");
      if (p.op == Instruction::SDiv || p.op == Instruction::SRem) { E mn = M.cst((u128)1 << (p.w - 1), p.w); errorIf(s, fromE(M.band(M.bin(K::EQ, toE(a, p.w), mn), M.bin(K::EQ, toE(b, p.w), M.cst(maskw(p.w), p.w)))), "div0", "signed division overflow (minimum divided by -1)"); }
      s.st.back().r[p.dst] = binop(p.op, a, b, p.w); break; }
    case Instruction::ICmp: for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = icmp(p.x[0], get(f, p.ops[0], i), get(f, p.ops[1], i), p.w); break;
    case Instruction::FCmp: { Val a = get(f, p.ops[0]), b = get(f, p.ops[1]);
      if (p.w == 80) { if (!isC(a) || !isC(b)) fatalPath(s, "symbolic long double"); long double x = asLD(cv(a)), y = asLD(cv(b)); unsigned q = p.x[0]; bool un = x != x || y != y, r; if (un) r = q & 8; else r = ((q & 1) && x == y) || ((q & 2) && x > y) || ((q & 4) && x < y); set(C(r)); break; }
      set(fromE(M.fcmp(p.x[0], toE(a, p.w), toE(b, p.w)))); break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Val a = get(f, p.ops[0]), b = get(f, p.ops[1]);
      if (p.w == 80) { if (!isC(a) || !isC(b)) fatalPath(s, "symbolic long double"); long double x = asLD(cv(a)), y = asLD(cv(b)); set(fromLD(p.op == Instruction::FAdd ? x + y : p.op == Instruction::FSub ? x - y : p.op == Instruction::FMul ? x * y : p.op == Instruction::FDiv ? x / y : fmodl(x, y))); break; }
      if (p.op == Instruction::FRem) { if (isC(a) && isC(b)) set(C((uint64_t)ExprMgr::fromD(fmod(ExprMgr::asD(cv(a), p.w), ExprMgr::asD(cv(b), p.w)), p.w))); else set(fromE(M.uf("fmod", toE(a, 64), toE(b, 64)))); break; }
      K k = p.op == Instruction::FAdd ? K::FADD : p.op == Instruction::FSub ? K::FSUB : p.op == Instruction::FMul ? K::FMUL : K::FDIV; set(fromE(M.fbin(k, toE(a, p.w), toE(b, p.w)))); break; }
    case Instruction::FNeg: { Val a = get(f, p.ops[0]); if (p.w == 80) { set(fromLD(-asLD(cv(a)))); break; } set(fromE(M.bin(K::XOR, toE(a, p.w), M.cst((u128)1 << (p.w - 1), p.w)))); break; }
    case Instruction::Trunc: for (unsigned i = 0; i < p.n; i++) { Val a = get(f, p.ops[0], i); if (!a.e) f.r[p.dst + i] = C(a.c & m64(p.w)); else f.r[p.dst + i] = fromE(M.extract(a.e, 0, p.w)); } break;
    case Instruction::ZExt: for (unsigned i = 0; i < p.n; i++) { Val a = get(f, p.ops[0], i); if (!a.e && p.w <= 64) f.r[p.dst + i] = a; else { E e = toE(a, p.x[0]); std::set<uint64_t> cs; if (p.w == 64 && p.n == 1 && e->k != K::CONST && (e->w == 1 || e->w >= 16) && (e->w == 1 || constSet(e, cs, 80))) { uint64_t x = concretize(s, a, e->w); s.st.back().r[p.dst] = C(x); break; } f.r[p.dst + i] = fromE(M.zext(e, p.w)); } } break;
    case Instruction::SExt: for (unsigned i = 0; i < p.n; i++) { Val a = get(f, p.ops[0], i); if (!a.e && p.w <= 64) f.r[p.dst + i] = C((uint64_t)(int64_t)sx(a.c, p.x[0]) & m64(p.w)); else { E e = toE(a, p.x[0]); std::set<uint64_t> cs; if (p.w == 64 && p.n == 1 && e->k != K::CONST && (e->w == 1 || e->w >= 16) && (e->w == 1 || constSet(e, cs, 80))) { uint64_t x = concretize(s, a, e->w); s.st.back().r[p.dst] = C((uint64_t)(int64_t)sx(x, e->w)); break; } f.r[p.dst + i] = fromE(M.sext(e, p.w)); } } break;
    case Instruction::BitCast: if (p.n == p.ops[0].n) for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = get(f, p.ops[0], i); else { E acc = nullptr; auto& l = layout(p.I->getOperand(0)->getType()); for (unsigned i = 0; i < p.ops[0].n; i++) { E e = toE(get(f, p.ops[0], i), l[i].w); acc = acc ? M.concat(e, acc) : e; } unsigned lo = 0; for (unsigned i = 0; i < p.n; i++) { unsigned w = (*p.lay)[i].w; f.r[p.dst + i] = fromE(M.extract(acc, lo, w)); lo += w; } } break;
    case Instruction::PtrToInt: { Val a = get(f, p.ops[0]); if (p.w < 64) a = a.e ? fromE(M.extract(a.e, 0, p.w)) : C(a.c & m64(p.w)); set(a); break; }
    case Instruction::IntToPtr: { Val a = get(f, p.ops[0]); if (p.x[0] < 64 && a.e) a = fromE(M.zext(a.e, 64)); set(a); break; }
    case Instruction::AddrSpaceCast: case Instruction::Freeze: for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = get(f, p.ops[0], i); break;
    case Instruction::FPToSI: case Instruction::FPToUI: { Val a = get(f, p.ops[0]); if (p.x[0] == 80) { long double d = asLD(cv(a)); set(C((p.op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & m64(p.w))); break; } set(fromE(M.fptoi(toE(a, p.x[0]), p.w, p.op == Instruction::FPToSI))); break; }
    case Instruction::SIToFP: case Instruction::UIToFP: { Val a = get(f, p.ops[0]); if (p.w == 80) { if (!isC(a)) fatalPath(s, "symbolic long double"); set(p.op == Instruction::SIToFP ? fromLD((long double)(int64_t)sx(cv(a), p.x[0])) : fromLD((long double)(uint64_t)cv(a))); break; } set(fromE(M.itofp(toE(a, p.x[0]), p.w, p.op == Instruction::SIToFP))); break; }
    case Instruction::FPExt: { Val a = get(f, p.ops[0]); if (p.w == 80) { if (!isC(a)) fatalPath(s, "symbolic long double"); set(fromLD(ExprMgr::asD(cv(a), p.x[0]))); break; } set(fromE(M.fpext(toE(a, p.x[0])))); break; }
    case Instruction::FPTrunc: { Val a = get(f, p.ops[0]); if (p.x[0] == 80) { set(C((uint64_t)ExprMgr::fromD((double)asLD(cv(a)), p.w))); break; } set(fromE(M.fptrunc(toE(a, p.x[0])))); break; }
    case Instruction::Select: {
      Val c = get(f, p.ops[0]);
      if (p.ops[0].n > 1) { for (unsigned i = 0; i < p.n; i++) { Val ci = get(f, p.ops[0], i); Val a = get(f, p.ops[1], i), b = get(f, p.ops[2], i); f.r[p.dst + i] = isC(ci) ? (cv(ci) & 1 ? a : b) : iteV(ci.e, a, b, (*p.lay)[i].w); } break; }
      if (isC(c)) { auto& o = (cv(c) & 1) ? p.ops[1] : p.ops[2]; for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = get(f, o, i); break; }
      if (p.I->getType()->isPointerTy() || p.n > 1 || (p.w == 64 && !p.I->getType()->isDoubleTy())) { bool b = branch(s, c); Frame& g = s.st.back(); auto& o = b ? p.ops[1] : p.ops[2]; for (unsigned i = 0; i < p.n; i++) g.r[p.dst + i] = get(g, o, i); break; }
      set(iteV(c.e, get(f, p.ops[1]), get(f, p.ops[2]), p.w)); break; }
    case Instruction::ExtractValue: for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = get(f, p.ops[0], p.x[0] + i); break;
    case Instruction::InsertValue: { for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = get(f, p.ops[0], i); for (unsigned i = 0; i < p.ops[1].n; i++) f.r[p.dst + p.x[0] + i] = get(f, p.ops[1], i); break; }
    case Instruction::ExtractElement: { uint64_t i = concretize(s, get(f, p.ops[1]), 64); s.st.back().r[p.dst] = get(s.st.back(), p.ops[0], i); break; }
    case Instruction::InsertElement: { uint64_t k = concretize(s, get(f, p.ops[2]), 64); Frame& g = s.st.back(); for (unsigned i = 0; i < p.n; i++) g.r[p.dst + i] = get(g, p.ops[0], i); g.r[p.dst + k] = get(g, p.ops[1]); break; }
    case Instruction::ShuffleVector: { unsigned n0 = p.ops[0].n; for (unsigned i = 0; i < p.n; i++) { int m = p.x[i]; f.r[p.dst + i] = m < 0 ? C(0) : (unsigned)m < n0 ? get(f, p.ops[0], m) : get(f, p.ops[1], m - n0); } break; }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(p.I); Val a = get(f, p.ops[0]), b = get(f, p.ops[1]); Val o = loadVal(s, a, 0, p.w); Val n; switch (rm->getOperation()) { case AtomicRMWInst::Add: n = binop(Instruction::Add, o, b, p.w); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, o, b, p.w); break; case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Or: n = binop(Instruction::Or, o, b, p.w); break; case AtomicRMWInst::And: n = binop(Instruction::And, o, b, p.w); break; default: fatalPath(s, "atomicrmw"); } storeVal(s, a, 0, p.w, n); s.st.back().r[p.dst] = o; break; }
    case Instruction::AtomicCmpXchg: { Val a = get(f, p.ops[0]), e = get(f, p.ops[1]), n = get(f, p.ops[2]); Val o = loadVal(s, a, 0, p.w); bool eq = branch(s, icmp(CmpInst::ICMP_EQ, o, e, p.w)); if (eq) storeVal(s, a, 0, p.w, n); Frame& g = s.st.back(); g.r[p.dst] = o; g.r[p.dst + 1] = C(eq); break; }
    case Instruction::LandingPad: break;
    default: { std::string t; raw_string_ostream os(t); p.I->print(os); fatalPath(s, "unsupported instruction " + t); }
  }
  s.st.back().pc++;
}

static uint64_t maxMB = 6000;
static uint64_t residentMB() { FILE* f = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b / 256; }
static std::string jesc(const std::string& x) { std::string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r; }

int main(int argc, char** argv) {
  std::string bc, out, entry = "vp_main";
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "-o") out = argv[++i]; else if (a == "-p") { std::string q = argv[++i]; auto e = q.find('='); params[q.substr(0, e)] = strtoull(q.c_str() + e + 1, nullptr, 0); }
    else if (a == "--max-time") maxTime = atof(argv[++i]); else if (a == "--max-paths") maxPaths = strtoull(argv[++i], 0, 0); else if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 0); else if (a == "--max-mb") maxMB = strtoull(argv[++i], 0, 0); else if (a == "--max-viol") maxViol = atoi(argv[++i]);
    else if (a == "--replay") { replay = true; std::ifstream f(argv[++i]); std::string n; uint64_t v; while (f >> n >> v) fixedInputs[n] = v; }
    else if (a == "-v") verbose = true; else if (a == "--entry") entry = argv[++i]; else bc = a; }
  T0 = std::chrono::steady_clock::now();
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("symex", errs()); return 3; }
  MOD = mod.get(); DL = &mod->getDataLayout(); Solver solver(M); SV = &solver; M.ufEval = ufEvalFn; addBuiltins();
  State* s0 = new State;
  // functions and globals
  for (auto& F : *mod) { Obj* o = s0->mem.alloc(1, O_FUNC); o->name = new std::string(F.getName().str()); gaddr[&F] = o->base; fnByAddr[o->base] = &F; }
  for (auto& G : mod->globals()) { uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; if (!G.hasInitializer() && sz < 256) sz = 256; Obj* o = s0->mem.alloc(sz, G.isConstant() && G.hasInitializer() ? O_CONST : O_GLOBAL); memset(o->data, 0, sz); o->name = new std::string(G.getName().str()); gaddr[&G] = o->base;
    std::string n = G.getName().str(); if (n == "_ZTVN10__cxxabiv117__class_type_infoE") vtClass = o->base + 16; if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") vtSI = o->base + 16; if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVMI = o->base + 16;
    if (n == "__libc_single_threaded") o->data[0] = 1; }
  for (auto& G : mod->globals()) if (G.hasInitializer() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used" && G.getName() != "llvm.global_dtors") initGlobal(s0->mem.find(gaddr[&G]), 0, G.getInitializer());
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* g = mod->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* main_ = mod->getFunction(entry); if (!main_) { errs() << "no entry\n"; return 3; }
  s0->pending.push_back(main_); for (int i = (int)ctors.size() - 1; i >= 0; i--) s0->pending.push_back(ctors[i].second);
  work.push_back(s0); bool timeout = false, memout = false;
  uint64_t tick = 0; double lastPrint = 0;
  while (!work.empty()) {
    State* s = work.back(); work.pop_back();
    bool done = false;
    try {
      for (;;) {
        if (s->st.empty()) { if (s->pending.empty()) { done = true; break; } Function* F = s->pending.back(); s->pending.pop_back(); pushFrame(*s, F, {}, {}); }
        step(*s);
        if ((++tick & 0xfff) == 0 && elapsed() > maxTime) { timeout = true; break; }
        if ((tick & 0xffff) == 0 && residentMB() > maxMB) { memout = true; break; }
      }
    } catch (PathEnd&) { } catch (TimeUp&) { timeout = true; }
    if (timeout || memout) { suspect(*s); std::vector<State*> w(work); std::sort(w.begin(), w.end(), [](State* a, State* b) { return a->steps > b->steps; }); for (size_t i = 0; i < w.size() && i < 2; i++) suspect(*w[i]); }
    nPaths++;
    if (verbose && elapsed() - lastPrint > 2) { lastPrint = elapsed(); fprintf(stderr, "[%.0fs] paths=%" PRIu64 " work=%zu steps=%" PRIu64 " q=%" PRIu64 " st=%.1f viol=%zu\n", elapsed(), nPaths, work.size(), nSteps, SV->queries, SV->time, viols.size()); }
    if (done) {
      if (sampleInputs.size() < 8 || (nPaths % 97 == 0 && sampleInputs.size() < 24)) { 
        std::vector<std::pair<std::string, std::string>> o; bool okm = s->modelOk; for (auto& x : s->obs) o.push_back({x.first, std::to_string(isC(x.second) ? (uint64_t)cv(x.second) : (uint64_t)M.eval(x.second.e, s->model))});
        if (okm) { sampleInputs.push_back(modelInputs(*s, s->model)); obsOut.push_back(o); } }
    }
    delete s;
    if (memout) { timeout = true; incon("memory bound of " + std::to_string(maxMB) + " MB reached with " + std::to_string(work.size() + 1) + " unexplored states"); break; }
    if (timeout) { incon("time bound of " + std::to_string((int)maxTime) + " s reached with " + std::to_string(work.size() + 1) + " unexplored states"); break; }
    if (nPaths >= maxPaths && !work.empty()) { incon("path bound reached"); break; }
    if (viols.size() >= maxViol) break;
  }
  if (verbose) { std::vector<std::pair<uint64_t, std::string>> v; for (auto& q : qhist) v.push_back({q.second, q.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8" PRIu64 " queries at %s\n", v[i].first, v[i].second.c_str()); }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::ostringstream j; j << "{\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"assume_killed\":" << nKilledAssume << ",\"instructions\":" << nSteps << ",\"queries\":" << SV->queries << ",\"domain_queries\":" << SV->domQueries << ",\"cache_hits\":" << SV->cacheHits << ",\"sat\":" << SV->nsat << ",\"unsat\":" << SV->nunsat << ",\"unknown\":" << SV->unknowns << ",\"solver_s\":" << SV->time << ",\"wall_s\":" << elapsed() << ",\"max_rss_kb\":" << ru.ru_maxrss << ",\"checks\":" << nChecks << ",\"checks_symbolic\":" << nChecksSym << ",\"exhausted\":" << (work.empty() && !timeout ? "true" : "false");
  j << ",\"inconclusive\":["; for (size_t i = 0; i < inconcl.size(); i++) j << (i ? "," : "") << "\"" << jesc(inconcl[i]) << "\""; j << "]";
  j << ",\"reached\":{"; bool first = true; for (auto& r : reached) { j << (first ? "" : ",") << "\"" << jesc(r) << "\":" << reachCnt[r]; first = false; } j << "}";
  auto inp = [&](std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>>& v) { j << "["; for (size_t i = 0; i < v.size(); i++) j << (i ? "," : "") << "[\"" << jesc(v[i].first) << "\"," << v[i].second.first << ",\"" << v[i].second.second << "\"]"; j << "]"; };
  j << ",\"violations\":["; for (size_t i = 0; i < viols.size(); i++) { j << (i ? "," : "") << "{\"kind\":\"" << viols[i].kind << "\",\"msg\":\"" << jesc(viols[i].msg) << "\",\"where\":\"" << jesc(viols[i].where) << "\",\"inputs\":"; inp(viols[i].inputs); j << "}"; } j << "]";
  j << ",\"suspects\":["; for (size_t i = 0; i < suspects.size(); i++) { j << (i ? "," : "") << "{\"kind\":\"" << suspects[i].kind << "\",\"msg\":\"" << jesc(suspects[i].msg) << "\",\"where\":\"" << jesc(suspects[i].where) << "\",\"inputs\":"; inp(suspects[i].inputs); j << "}"; } j << "]";
  j << ",\"samples\":["; for (size_t i = 0; i < sampleInputs.size(); i++) { j << (i ? "," : "") << "{\"inputs\":"; inp(sampleInputs[i]); j << ",\"obs\":["; for (size_t k = 0; k < obsOut[i].size(); k++) j << (k ? "," : "") << "[\"" << jesc(obsOut[i][k].first) << "\",\"" << obsOut[i][k].second << "\"]"; j << "]}"; } j << "]";
  std::set<std::string> used; for (auto& p : pfns) if (p.second->used && p.second->isRepo) used.insert(p.second->name);
  j << ",\"functions\":["; first = true; for (auto& u : used) { j << (first ? "" : ",") << "\"" << jesc(u) << "\""; first = false; } j << "]";
  j << ",\"externs\":["; first = true; for (auto& u : externsUsed) { j << (first ? "" : ",") << "\"" << jesc(u) << "\""; first = false; } j << "]}";
  if (out.empty()) printf("%s\n", j.str().c_str()); else { std::ofstream f(out); f << j.str() << "\n"; }
  fflush(stdout);
  _exit(0);
}
