// Intrinsics, the C/C++ run-time functions the executor models itself, and the sym_* interface.

static E andE(E a, E b) { return mk(Op::AND, a, b); }
static E shlC(E a, unsigned n) { return mk(Op::SHL, a, mkConst(a->w, n)); }
static E lshrC(E a, unsigned n) { return mk(Op::LSHR, a, mkConst(a->w, n)); }

static Obj* rangeOf(State& s, uint64_t a, uint64_t n, uint64_t& off, const char* what) {
  E oe;
  return resolve(s, cv(64, a), n, off, oe, what);
}
static void memCopy(State& s, const Val& dst, const Val& src, uint64_t n) {
  if (!n) return;
  uint64_t d = concretize(s, dst), r = concretize(s, src);
  uint64_t so, dof;
  ObjP keep;
  {
    Obj* so_ = rangeOf(s, r, n, so, "load");
    keep = *find(s, r);
    if (keep.get() != so_) keep = std::make_shared<Obj>(*so_);
  }
  Obj* dob = rangeOf(s, d, n, dof, "store");
  if (dob->ro && !s.initPhase) fail(s, "memory", "store to constant memory");
  std::vector<uint8_t> tb(keep->b.begin() + so, keep->b.begin() + so + n);
  std::vector<SymB> ts;
  bool any = false;
  if (!keep->s.empty()) {
    ts.assign(keep->s.begin() + so, keep->s.begin() + so + n);
    for (auto& x : ts)
      if (x.e) any = true;
  }
  keep.reset();
  dob = writable(s, dob);
  memcpy(&dob->b[dof], tb.data(), n);
  if (any) {
    if (dob->s.empty()) dob->s.resize(dob->size);
    for (uint64_t i = 0; i < n; ++i) dob->s[dof + i] = ts[i];
  } else if (!dob->s.empty()) {
    for (uint64_t i = 0; i < n; ++i) dob->s[dof + i].e = nullptr;
  }
}
static void memSet(State& s, const Val& dst, const Val& val, uint64_t n) {
  if (!n) return;
  uint64_t d = concretize(s, dst), off;
  Obj* o = rangeOf(s, d, n, off, "store");
  if (o->ro && !s.initPhase) fail(s, "memory", "store to constant memory");
  o = writable(s, o);
  if (val.conc()) {
    memset(&o->b[off], (int)val.v, n);
    if (!o->s.empty())
      for (uint64_t i = 0; i < n; ++i) o->s[off + i].e = nullptr;
  } else {
    E e = mkExtract(toE(val), 0, 8);
    for (uint64_t i = 0; i < n; ++i) storeTo(o, off + i, 1, fromE(e));
  }
}

static E popcountE(E a) {
  E r = mkConst(a->w, 0);
  for (unsigned i = 0; i < a->w; ++i) r = mk(Op::ADD, r, mkZext(mkExtract(a, i, 1), a->w));
  return r;
}
static E ctlzE(E a) {
  E r = mkConst(a->w, a->w);
  for (unsigned i = 0; i < a->w; ++i)
    r = mkIte(mkEq(mkExtract(a, i, 1), mkConst(1, 1)), mkConst(a->w, a->w - 1 - i), r);
  return r;
}
static E cttzE(E a) {
  E r = mkConst(a->w, a->w);
  for (unsigned i = a->w; i-- > 0;)
    r = mkIte(mkEq(mkExtract(a, i, 1), mkConst(1, 1)), mkConst(a->w, i), r);
  return r;
}
static E bswapE(E a) {
  E r = nullptr;
  for (unsigned i = 0; i < a->w / 8; ++i) {
    E b = mkExtract(a, i * 8, 8);
    r = r ? mkConcat(r, b) : b;
  }
  return r;
}
static E fabsE(E a) {
  llvm::APInt m = llvm::APInt::getSignedMaxValue(a->w);
  return andE(a, mkConst(m));
}
static E signBit(E a) { return mkExtract(a, a->w - 1, 1); }
static E roundE(E a, int rm) { return mkFpUn(Op::FRTI, a, a->w, rm); }
static Val agg2(const Val& a, const Val& b) {
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  r.agg->push_back(a);
  r.agg->push_back(b);
  return r;
}
static Val overflowOp(int kind, bool sgn, E a, E b) {  // 0 add 1 sub 2 mul
  unsigned w = a->w;
  Op op = kind == 0 ? Op::ADD : kind == 1 ? Op::SUB : Op::MUL;
  E r = mk(op, a, b);
  E ov;
  if (kind == 0) {
    if (sgn) {
      E sa = signBit(a), sb = signBit(b), sr = signBit(r);
      ov = mkAnd(mkEq(sa, sb), mkNe(sa, sr));
    } else
      ov = mk(Op::ULT, r, a);
  } else if (kind == 1) {
    if (sgn) {
      E sa = signBit(a), sb = signBit(b), sr = signBit(r);
      ov = mkAnd(mkNe(sa, sb), mkNe(sa, sr));
    } else
      ov = mk(Op::ULT, a, b);
  } else if (sgn && (a->isConst() || b->isConst())) {
    // by a constant: a comparison with the greatest and least factor
    E v = b->isConst() ? a : b;
    llvm::APInt c = (b->isConst() ? b : a)->c, mx = llvm::APInt::getSignedMaxValue(w), mn = llvm::APInt::getSignedMinValue(w);
    if (c.isZero() || c.isOne()) ov = mkConst(1, 0);
    else if (c.isAllOnes()) ov = mkEq(v, mkConst(mn));
    else {
      llvm::APInt hi = c.isNegative() ? mn.sdiv(c) : mx.sdiv(c), lo = c.isNegative() ? mx.sdiv(c) : mn.sdiv(c);
      ov = mkOr(mk(Op::SLT, mkConst(hi), v), mk(Op::SLT, v, mkConst(lo)));
    }
  } else {
    unsigned W = 2 * w;
    E x = sgn ? mkSext(a, W) : mkZext(a, W), y = sgn ? mkSext(b, W) : mkZext(b, W);
    E p = mk(Op::MUL, x, y);
    E q = sgn ? mkSext(mkExtract(p, 0, w), W) : mkZext(mkExtract(p, 0, w), W);
    ov = mkNe(p, q);
    r = mkExtract(p, 0, w);
  }
  return agg2(fromE(r), fromE(ov));
}
static E minmaxE(Intrinsic::ID id, E a, E b) {
  switch (id) {
    case Intrinsic::smin: case Intrinsic::vector_reduce_smin: return mkIte(mk(Op::SLT, a, b), a, b);
    case Intrinsic::smax: case Intrinsic::vector_reduce_smax: return mkIte(mk(Op::SLT, b, a), a, b);
    case Intrinsic::umin: case Intrinsic::vector_reduce_umin: return mkIte(mk(Op::ULT, a, b), a, b);
    default: return mkIte(mk(Op::ULT, b, a), a, b);
  }
}
// fold a vector into a fresh vector of per-lane results
static Val mapE(const Val& a, const std::function<E(E)>& f) {
  return mapv(a, [&](const Val& x) { return fromE(f(toE(x))); });
}
static Val mapE2(const Val& a, const Val& b, const std::function<E(E, E)>& f) {
  return mapv2(a, b, [&](const Val& x, const Val& y) { return fromE(f(toE(x), toE(y))); });
}

static void intrinsic(State& s, KInst& k, Function* F, CallBase* cb) {
  Frame& f = s.th[s.cur].st.back();
  auto A = [&](unsigned i) -> Val { return opv(f, k, i); };
  auto fin = [&](const Val& v) { finishCall(s, v); };
  auto id = F->getIntrinsicID();
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe:
      return fin(Val());
    case Intrinsic::assume: return fin(Val());
    case Intrinsic::invariant_start: return fin(cv(64, 0));
    case Intrinsic::stacksave: return fin(cv(64, 0));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
    case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence:
      return fin(A(0));
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = concretize(s, A(2));
      memCopy(s, A(0), A(1), n);
      return fin(Val());
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      uint64_t n = concretize(s, A(2));
      memSet(s, A(0), A(1), n);
      return fin(Val());
    }
    case Intrinsic::ctpop: return fin(mapE(A(0), popcountE));
    case Intrinsic::ctlz: return fin(mapE(A(0), ctlzE));
    case Intrinsic::cttz: return fin(mapE(A(0), cttzE));
    case Intrinsic::bswap: return fin(mapE(A(0), bswapE));
    case Intrinsic::abs:
      return fin(mapE(A(0), [](E a) {
        return mkIte(mk(Op::SLT, a, mkConst(a->w, 0)), mk(Op::SUB, mkConst(a->w, 0), a), a);
      }));
    case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax:
      return fin(mapE2(A(0), A(1), [&](E a, E b) { return minmaxE(id, a, b); }));
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_smin:
    case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: {
      Val v = A(0);
      E r = toE((*v.agg)[0]);
      for (size_t i = 1; i < v.agg->size(); ++i) {
        E x = toE((*v.agg)[i]);
        switch (id) {
          case Intrinsic::vector_reduce_add: r = mk(Op::ADD, r, x); break;
          case Intrinsic::vector_reduce_or: r = mk(Op::OR, r, x); break;
          case Intrinsic::vector_reduce_and: r = mk(Op::AND, r, x); break;
          case Intrinsic::vector_reduce_xor: r = mk(Op::XOR, r, x); break;
          case Intrinsic::vector_reduce_mul: r = mk(Op::MUL, r, x); break;
          default: r = minmaxE(id, r, x);
        }
      }
      return fin(fromE(r));
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      auto one = [&](E a, E b, E c) -> E {
        unsigned w = a->w;
        E sh = mk(Op::UREM, c, mkConst(w, w));
        E cat = mkConcat(a, b);
        E shw = mkZext(sh, 2 * w);
        if (id == Intrinsic::fshl) return mkExtract(mk(Op::SHL, cat, shw), w, w);
        return mkExtract(mk(Op::LSHR, cat, shw), 0, w);
      };
      Val a = A(0), b = A(1), c = A(2);
      if (!a.agg) return fin(fromE(one(toE(a), toE(b), toE(c))));
      Val r;
      r.agg = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < a.agg->size(); ++i)
        r.agg->push_back(fromE(one(toE((*a.agg)[i]), toE((*b.agg)[i]), toE((*c.agg)[i]))));
      return fin(r);
    }
    case Intrinsic::sadd_with_overflow: return fin(overflowOp(0, true, toE(A(0)), toE(A(1))));
    case Intrinsic::uadd_with_overflow: return fin(overflowOp(0, false, toE(A(0)), toE(A(1))));
    case Intrinsic::ssub_with_overflow: return fin(overflowOp(1, true, toE(A(0)), toE(A(1))));
    case Intrinsic::usub_with_overflow: return fin(overflowOp(1, false, toE(A(0)), toE(A(1))));
    case Intrinsic::smul_with_overflow: return fin(overflowOp(2, true, toE(A(0)), toE(A(1))));
    case Intrinsic::umul_with_overflow: return fin(overflowOp(2, false, toE(A(0)), toE(A(1))));
    case Intrinsic::usub_sat:
      return fin(mapE2(A(0), A(1), [](E a, E b) {
        return mkIte(mk(Op::ULT, a, b), mkConst(a->w, 0), mk(Op::SUB, a, b));
      }));
    case Intrinsic::uadd_sat:
      return fin(mapE2(A(0), A(1), [](E a, E b) {
        E r = mk(Op::ADD, a, b);
        return mkIte(mk(Op::ULT, r, a), mkConst(llvm::APInt::getAllOnes(a->w)), r);
      }));
    case Intrinsic::ssub_sat: case Intrinsic::sadd_sat:
      return fin(mapE2(A(0), A(1), [&](E a, E b) {
        Val o = overflowOp(id == Intrinsic::sadd_sat ? 0 : 1, true, a, b);
        E mx = mkConst(llvm::APInt::getSignedMaxValue(a->w)), mn = mkConst(llvm::APInt::getSignedMinValue(a->w));
        return mkIte(toE((*o.agg)[1]), mkIte(mkEq(signBit(a), mkConst(1, 1)), mn, mx), toE((*o.agg)[0]));
      }));
    case Intrinsic::fabs: return fin(mapE(A(0), fabsE));
    case Intrinsic::floor: return fin(mapE(A(0), [](E a) { return roundE(a, RM_DOWN); }));
    case Intrinsic::ceil: return fin(mapE(A(0), [](E a) { return roundE(a, RM_UP); }));
    case Intrinsic::trunc: return fin(mapE(A(0), [](E a) { return roundE(a, RM_ZERO); }));
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven:
      return fin(mapE(A(0), [](E a) { return roundE(a, RM_NEAREST); }));
    case Intrinsic::round: return fin(mapE(A(0), [](E a) { return roundE(a, RM_AWAY); }));
    case Intrinsic::lround: case Intrinsic::llround:
      return fin(fromE(mkFpUn(Op::FP2SI, roundE(toE(A(0)), RM_AWAY), 64)));
    case Intrinsic::sqrt: return fin(mapE(A(0), [](E a) { return mkFpUn(Op::FSQRT, a, a->w); }));
    case Intrinsic::fma: return fin(fromE(mkFma(toE(A(0)), toE(A(1)), toE(A(2)))));
    case Intrinsic::fmuladd:
      return fin(fromE(mk(Op::FADD, mk(Op::FMUL, toE(A(0)), toE(A(1))), toE(A(2)))));
    case Intrinsic::copysign:
      return fin(mapE2(A(0), A(1), [](E a, E b) {
        E m = mkConst(llvm::APInt::getSignMask(a->w));
        return mk(Op::OR, fabsE(a), andE(b, m));
      }));
    case Intrinsic::minnum: case Intrinsic::maxnum:
      return fin(mapE2(A(0), A(1), [&](E a, E b) {
        E an = mkFpUn(Op::FISNAN, a, 1), bn = mkFpUn(Op::FISNAN, b, 1);
        E lt = id == Intrinsic::minnum ? mk(Op::FLT, a, b) : mk(Op::FLT, b, a);
        return mkIte(an, b, mkIte(bn, a, mkIte(lt, a, b)));
      }));
    case Intrinsic::is_fpclass: {
      E a = toE(A(0));
      uint64_t m = A(1).v;
      unsigned w = a->w, mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11;
      E man = mkExtract(a, 0, mb), ex = mkExtract(a, mb, eb), sg = signBit(a);
      E exAll = mkEq(ex, mkConst(llvm::APInt::getAllOnes(eb))), ex0 = mkEq(ex, mkConst(eb, 0)), m0 = mkEq(man, mkConst(mb, 0));
      E neg = mkEq(sg, mkConst(1, 1)), pos = mkNot(neg);
      E quiet = mkEq(mkExtract(a, mb - 1, 1), mkConst(1, 1));
      E nan = mkAnd(exAll, mkNot(m0));
      E inf = mkAnd(exAll, m0), zero = mkAnd(ex0, m0), sub = mkAnd(ex0, mkNot(m0)), nor = mkAnd(mkNot(ex0), mkNot(exAll));
      E r = mkBool(false);
      auto add = [&](unsigned bit, E c) { if (m & bit) r = mkOr(r, c); };
      add(1, mkAnd(nan, mkNot(quiet))); add(2, mkAnd(nan, quiet)); add(4, mkAnd(inf, neg)); add(8, mkAnd(nor, neg));
      add(16, mkAnd(sub, neg)); add(32, mkAnd(zero, neg)); add(64, mkAnd(zero, pos)); add(128, mkAnd(sub, pos));
      add(256, mkAnd(nor, pos)); add(512, mkAnd(inf, pos));
      return fin(fromE(r));
    }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: throw Unsup{"saturating fp conversion"};
    case Intrinsic::objectsize: return fin(cv(64, cast<ConstantInt>(cb->getArgOperand(1))->isZero() ? ~0ULL : 0));
    case Intrinsic::is_constant: return fin(cv(1, 0));
    case Intrinsic::eh_typeid_for: {
      uint64_t t = A(0).v;
      return fin(cv(32, (uint32_t)typeId(t)));
    }
    case Intrinsic::threadlocal_address: return fin(A(0));
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "abort", "trap executed");
    case Intrinsic::experimental_constrained_fadd: throw Unsup{"constrained fp"};
    case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2:
    case Intrinsic::exp2: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::powi: {
      Val a = A(0);
      if (!a.conc()) throw Unsup{"transcendental function of a symbolic value"};
      double x;
      if (a.w == 64) memcpy(&x, &a.v, 8);
      else { float q; uint32_t b = (uint32_t)a.v; memcpy(&q, &b, 4); x = q; }
      double y = 0;
      if (id == Intrinsic::pow) {
        Val b = A(1);
        if (!b.conc()) throw Unsup{"pow of a symbolic value"};
        if (b.w == 64) memcpy(&y, &b.v, 8);
        else { float q; uint32_t t = (uint32_t)b.v; memcpy(&q, &t, 4); y = q; }
      } else if (id == Intrinsic::powi) {
        y = (int32_t)A(1).v;
      }
      double r = id == Intrinsic::pow || id == Intrinsic::powi ? pow(x, y) : id == Intrinsic::exp ? exp(x) : id == Intrinsic::log ? log(x)
               : id == Intrinsic::log10 ? log10(x) : id == Intrinsic::log2 ? log2(x) : id == Intrinsic::exp2 ? exp2(x)
               : id == Intrinsic::sin ? sin(x) : cos(x);
      uint64_t bits = 0;
      if (a.w == 64) memcpy(&bits, &r, 8);
      else { float q = (float)r; memcpy(&bits, &q, 4); }
      return fin(cv(a.w, bits));
    }
    case Intrinsic::vastart: {
      // x86-64 va_list: all arguments in the overflow area
      uint64_t n = f.varargs.size() * 8 + 8;
      uint64_t a = allocObj(s, n, 2);
      Frame& f2 = s.th[s.cur].st.back();
      for (size_t i = 0; i < f2.varargs.size(); ++i) {
        Val v = f2.varargs[i];
        if (v.agg || v.w > 64) throw Unsup{"vararg type"};
        Val x = v.conc() ? cv(64, v.v) : fromE(mkZext(toE(v), 64));
        storeMem(s, cv(64, a + 8 * i), 8, x);
      }
      Val ap = A(0);
      storeMem(s, ap, 4, cv(32, 48));
      storeMem(s, ptrAdd(ap, 4), 4, cv(32, 304));
      storeMem(s, ptrAdd(ap, 8), 8, cv(64, a));
      storeMem(s, ptrAdd(ap, 16), 8, cv(64, 0));
      return fin(Val());
    }
    case Intrinsic::vaend: return fin(Val());
    case Intrinsic::vacopy: memCopy(s, A(0), A(1), 24); return fin(Val());
    default: throw Unsup{"intrinsic " + F->getName().str()};
  }
}

// ------------------------------------------------------------------ library functions
enum BI : int {
  B_NONE = 0, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_ALIGNED, B_PMEMALIGN, B_NEW, B_NEWAL, B_DELETE,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLENC, B_CXALLOC, B_CXFREE, B_THROW, B_BEGINC, B_ENDC, B_RETHROW, B_GETEXC,
  B_GUARDA, B_GUARDR, B_ZERO, B_VOID, B_ARG0, B_RESUME, B_ABORT, B_ASSERTF, B_MATH1, B_MATH2, B_FLOOR, B_EXCCTOR,
  B_SYM8, B_SYM16, B_SYM32, B_SYM64, B_SYMMAKE, B_ASSUME, B_ASSERT, B_COVER, B_OBSERVE, B_CONCR, B_ISSYM,
  B_THREAD, B_JOIN, B_YIELD, B_YIELDA, B_SHARED, B_LOCK, B_UNLOCK, B_RDLOCK, B_TRYLOCK, B_EMPTYSTR, B_ISNATIVE, B_DBG, B_TERMINATE,
  B_NOTEMIT, B_THROWSTD, B_MERGEPT
};
static int classify(const Function* F) {
  StringRef n = F->getName();
  static const std::unordered_map<std::string, int> tab = {
      {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
      {"aligned_alloc", B_ALIGNED}, {"memalign", B_ALIGNED}, {"posix_memalign", B_PMEMALIGN},
      {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW},
      {"_ZnwmSt11align_val_t", B_NEWAL}, {"_ZnamSt11align_val_t", B_NEWAL},
      {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPvm", B_DELETE},
      {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdlPvRKSt9nothrow_t", B_DELETE},
      {"_ZdaPvSt11align_val_t", B_DELETE},
      {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
      {"__cxa_allocate_exception", B_CXALLOC}, {"__cxa_free_exception", B_CXFREE}, {"__cxa_throw", B_THROW},
      {"__cxa_begin_catch", B_BEGINC}, {"__cxa_end_catch", B_ENDC}, {"__cxa_rethrow", B_RETHROW},
      {"__cxa_get_exception_ptr", B_GETEXC},
      {"__cxa_guard_acquire", B_GUARDA}, {"__cxa_guard_release", B_GUARDR}, {"__cxa_guard_abort", B_VOID},
      {"__cxa_atexit", B_ZERO}, {"__cxa_thread_atexit", B_ZERO}, {"atexit", B_ZERO},
      {"_Unwind_Resume", B_RESUME}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT},
      {"__cxa_pure_virtual", B_ABORT}, {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE},
      {"__assert_fail", B_ASSERTF}, {"sym_u8", B_SYM8}, {"sym_u16", B_SYM16}, {"sym_u32", B_SYM32},
      {"sym_u64", B_SYM64}, {"sym_make", B_SYMMAKE}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT},
      {"sym_cover", B_COVER}, {"sym_observe", B_OBSERVE}, {"sym_concretize", B_CONCR}, {"sym_thread", B_THREAD},
      {"sym_join", B_JOIN}, {"sym_yield_point", B_YIELD}, {"sym_yield_addr", B_YIELDA}, {"sym_shared", B_SHARED}, {"sym_is_native", B_ZERO}, {"sym_dbg", B_DBG},
      {"pthread_mutex_lock", B_LOCK}, {"pthread_mutex_unlock", B_UNLOCK}, {"pthread_mutex_trylock", B_TRYLOCK},
      {"pthread_rwlock_wrlock", B_LOCK}, {"pthread_rwlock_rdlock", B_RDLOCK}, {"pthread_rwlock_unlock", B_UNLOCK},
      {"pthread_rwlock_init", B_ZERO}, {"pthread_rwlock_destroy", B_ZERO}, {"pthread_mutex_init", B_ZERO},
      {"pthread_mutex_destroy", B_ZERO}, {"pthread_cond_init", B_ZERO}, {"pthread_cond_destroy", B_ZERO},
      {"pthread_cond_signal", B_ZERO}, {"pthread_cond_broadcast", B_ZERO}, {"pthread_self", B_ZERO},
      {"_ZNSt18condition_variable10notify_allEv", B_VOID}, {"_ZNSt18condition_variable10notify_oneEv", B_VOID},
      {"_ZNSt18condition_variableC1Ev", B_VOID}, {"_ZNSt18condition_variableD1Ev", B_VOID},
      {"printf", B_ZERO}, {"puts", B_ZERO}, {"putchar", B_ZERO}, {"fprintf", B_ZERO}, {"fflush", B_ZERO},
      {"floor", B_FLOOR}, {"ceil", B_FLOOR}, {"trunc", B_FLOOR}, {"round", B_FLOOR}, {"rint", B_FLOOR},
      {"nearbyint", B_FLOOR}, {"floorf", B_FLOOR}, {"ceilf", B_FLOOR}, {"truncf", B_FLOOR}, {"roundf", B_FLOOR},
      {"rintf", B_FLOOR}, {"fabs", B_FLOOR}, {"fabsf", B_FLOOR}, {"llround", B_FLOOR}, {"lround", B_FLOOR},
      {"lroundf", B_FLOOR}, {"llroundf", B_FLOOR}, {"sqrt", B_FLOOR}, {"sqrtf", B_FLOOR},
      {"log", B_MATH1}, {"log2", B_MATH1}, {"log10", B_MATH1}, {"exp", B_MATH1}, {"sin", B_MATH1}, {"cos", B_MATH1},
      {"tan", B_MATH1}, {"asin", B_MATH1}, {"acos", B_MATH1}, {"atan", B_MATH1}, {"exp2", B_MATH1},
      {"pow", B_MATH2}, {"fmod", B_MATH2}, {"atan2", B_MATH2}, {"ldexp", B_MATH2},
      {"_ZNSt8ios_base4InitC1Ev", B_VOID}, {"_ZNSt8ios_base4InitD1Ev", B_VOID}, {"sched_yield", B_ZERO}};
  auto it = tab.find(n.str());
  if (it != tab.end()) return it->second;
  // message formatting on streams carries no observable behaviour here
  if (F->isDeclaration()) {
    if (n.contains("runtime_error") || n.contains("logic_error") || n.contains("invalid_argument") ||
        n.contains("out_of_range") || n.contains("length_error") || n.contains("domain_error") ||
        n.contains("overflow_error") || n.contains("range_error") || n.contains("bad_alloc") || n.starts_with("_ZNSt9exception")) {
      if (n.starts_with("_ZSt") && n.contains("__throw")) return B_THROWSTD;
      return B_VOID;
    }
    if (n.starts_with("_ZSt") && n.contains("__throw_")) return B_THROWSTD;
    if (n.starts_with("_ZStls") || n.starts_with("_ZNSolsE") || n.starts_with("_ZNSo9_M_insert") ||
        n.starts_with("_ZNSo3putEc") || n.starts_with("_ZNSo5flush") || n.starts_with("_ZNSo5writeE") ||
        n.starts_with("_ZSt16__ostream_insert") || n.starts_with("_ZSt4endl") || n.starts_with("_ZSt5flush"))
      return B_ARG0;
    if (n.contains("basic_ostringstream") || n.contains("basic_stringstream") || n.contains("basic_stringbuf") ||
        n.starts_with("_ZNSt8ios_base") || n.starts_with("_ZNSt9basic_ios") || n.starts_with("_ZNSt6locale") ||
        n.starts_with("_ZNSt15basic_streambuf") || n.starts_with("_ZNSoD") || n.starts_with("_ZNSoC")) {
      if (n.contains("3strEv")) return B_EMPTYSTR;
      return B_VOID;
    }
  }
  return B_NONE;
}

static void doFree(State& s, uint64_t a) {
  if (!a) return;
  ObjP* p = find(s, a);
  if (!p || (*p)->base != a || (*p)->kind != 2) fail(s, "memory", "free of an invalid or already freed pointer");
  s.heap.erase(a);
}
static uint64_t stdTypeInfo(const char* nm) {
  auto* g = M->getNamedValue(nm);
  if (g && g_gaddr.count(g)) return g_gaddr[g];
  return 0x8;  // no handler in the module names this type
}
static void throwTyped(State& s, uint64_t ti) {
  uint64_t a = allocObj(s, 64, 2, 16, 0);
  storeMem(s, cv(64, a), 8, cv(64, ti));
  auto& th = s.th[s.cur];
  th.excObj = a + 16;
  th.excTi = ti;
  unwind(s);
}
static double asD(const Val& v) {
  double x;
  memcpy(&x, &v.v, 8);
  return x;
}
static Val fromD(double x) {
  uint64_t b;
  memcpy(&b, &x, 8);
  return cv(64, b);
}
static Val freshVar(State& s, const std::string& nm, unsigned w) {
  static std::map<std::tuple<std::string, unsigned, int>, E> vars;
  int n = s.nameCnt[nm]++;
  E& v = vars[{nm, w, n}];
  if (!v) v = mkVar(n ? nm + "#" + std::to_string(n) : nm, w);
  s.inputs.push_back({v->aux});
  return fromE(v);
}
// is the thread blocked on a lock?
static bool blockOn(State& s, uint64_t a) {
  auto& th = s.th[s.cur];
  th.status = 3;
  th.waitAddr = a;
  schedule(s, true);
  return true;
}

static bool builtin(State& s, KInst& k, Function* F, std::vector<Val>& a) {
  static std::unordered_map<const Function*, int> cls;
  auto ci = cls.find(F);
  if (ci == cls.end()) ci = cls.emplace(F, classify(F)).first;
  int b = ci->second;
  if (!b) return false;
  auto fin = [&](const Val& v) { finishCall(s, v); return true; };
  auto retW = [&](uint64_t v) -> Val {
    Type* t = k.I->getType();
    if (t->isVoidTy()) return Val();
    return cv(scalarW(t), v);
  };
  switch (b) {
    case B_MALLOC: case B_NEW: {
      uint64_t n = concretize(s, a[0]);
      return fin(cv(64, allocObj(s, n, 2)));
    }
    case B_NEWAL: {
      uint64_t n = concretize(s, a[0]);
      return fin(cv(64, allocObj(s, n, 2, a[1].v)));
    }
    case B_ALIGNED: {
      uint64_t n = concretize(s, a[1]);
      return fin(cv(64, allocObj(s, n, 2, a[0].v)));
    }
    case B_PMEMALIGN: {
      uint64_t n = concretize(s, a[2]);
      uint64_t p = allocObj(s, n, 2, a[1].v);
      storeMem(s, a[0], 8, cv(64, p));
      return fin(cv(32, 0));
    }
    case B_CALLOC: {
      uint64_t x = concretize(s, a[0]), y = concretize(s, a[1]);
      return fin(cv(64, allocObj(s, x * y, 2, 16, 0)));
    }
    case B_REALLOC: {
      uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
      uint64_t q = allocObj(s, n, 2);
      if (p) {
        ObjP* o = find(s, p);
        if (!o || (*o)->base != p || (*o)->kind != 2) fail(s, "memory", "realloc of an invalid pointer");
        uint64_t m = std::min<uint64_t>(n, (*o)->size);
        memCopy(s, cv(64, q), cv(64, p), m);
        doFree(s, p);
      }
      return fin(cv(64, q));
    }
    case B_FREE: case B_DELETE: {
      uint64_t p = concretize(s, a[0]);
      doFree(s, p);
      return fin(Val());
    }
    case B_MEMCPY: {
      uint64_t n = concretize(s, a[2]);
      memCopy(s, a[0], a[1], n);
      return fin(a[0]);
    }
    case B_MEMSET: {
      uint64_t n = concretize(s, a[2]);
      memSet(s, a[0], a[1], n);
      return fin(a[0]);
    }
    case B_MEMCMP: {
      uint64_t n = concretize(s, a[2]);
      if (!n) return fin(cv(32, 0));
      uint64_t p = concretize(s, a[0]), q = concretize(s, a[1]), po, qo;
      Obj* x = rangeOf(s, p, n, po, "load");
      Obj* y = rangeOf(s, q, n, qo, "load");
      E r = mkConst(32, 0);
      for (uint64_t i = n; i-- > 0;) {
        E u = toE(loadFrom(x, po + i, 1)), v = toE(loadFrom(y, qo + i, 1));
        E d = mk(Op::SUB, mkZext(u, 32), mkZext(v, 32));
        r = mkIte(mkEq(u, v), r, d);
      }
      return fin(fromE(r));
    }
    case B_CXALLOC: {
      uint64_t n = concretize(s, a[0]);
      return fin(cv(64, allocObj(s, n + 16, 2) + 16));
    }
    case B_CXFREE: return fin(Val());
    case B_THROW: {
      auto& th = s.th[s.cur];
      th.excObj = a[0].v;
      th.excTi = a[1].v;
      storeMem(s, cv(64, a[0].v - 16), 8, a[1]);
      unwind(s);
      return true;
    }
    case B_RESUME: {
      auto& th = s.th[s.cur];
      th.excObj = concretize(s, a[0]);
      th.excTi = loadMem(s, cv(64, th.excObj - 16), 8).v;
      // continue in the caller
      popFrame(s);
      if (th.st.empty()) {
        report(s, "exception", "uncaught exception " + tiName(s, th.excTi), s.model);
        throw Kill();
      }
      unwind(s);
      return true;
    }
    case B_BEGINC: {
      auto& th = s.th[s.cur];
      uint64_t o = concretize(s, a[0]);
      th.caught.push_back({o, loadMem(s, cv(64, o - 16), 8).v});
      return fin(a[0]);
    }
    case B_ENDC: {
      auto& th = s.th[s.cur];
      if (!th.caught.empty()) th.caught.pop_back();
      return fin(Val());
    }
    case B_GETEXC: return fin(a[0]);
    case B_RETHROW: {
      auto& th = s.th[s.cur];
      if (th.caught.empty()) fail(s, "terminate", "rethrow without an exception");
      th.excObj = th.caught.back().first;
      th.excTi = th.caught.back().second;
      unwind(s);
      return true;
    }
    case B_GUARDA: {
      Val g = loadMem(s, a[0], 1);
      return fin(cv(32, g.v ? 0 : 1));
    }
    case B_GUARDR: storeMem(s, a[0], 1, cv(8, 1)); return fin(Val());
    case B_ZERO: return fin(retW(0));
    case B_VOID: {
      // constructors return nothing; anything else gets a zero
      if (k.I->getType()->isVoidTy()) return fin(Val());
      return fin(zeroOf(k.I->getType()));
    }
    case B_ARG0: return fin(a.empty() ? Val() : a[0]);
    case B_EMPTYSTR: {
      // sret std::string: pointer to the local buffer, length 0
      uint64_t p = concretize(s, a[0]);
      storeMem(s, cv(64, p), 8, cv(64, p + 16));
      storeMem(s, cv(64, p + 8), 8, cv(64, 0));
      storeMem(s, cv(64, p + 16), 1, cv(8, 0));
      return fin(Val());
    }
    case B_TERMINATE: fail(s, "terminate", "std::terminate called");
    case B_ABORT: fail(s, "abort", "abort called");
    case B_ASSERTF: fail(s, "abort", "assertion failed: " + readCStr(s, a[0].v));
    case B_THROWSTD: {
      StringRef n = F->getName();
      const char* ti = n.contains("out_of_range") ? "_ZTISt12out_of_range"
                       : n.contains("length_error") ? "_ZTISt12length_error"
                       : n.contains("logic_error") ? "_ZTISt11logic_error"
                       : n.contains("invalid_argument") ? "_ZTISt16invalid_argument"
                       : n.contains("runtime_error") ? "_ZTISt13runtime_error"
                       : n.contains("bad_function_call") ? "_ZTISt17bad_function_call"
                       : n.contains("bad_alloc") ? "_ZTISt9bad_alloc"
                       : n.contains("bad_optional") ? "_ZTISt19bad_optional_access"
                       : n.contains("bad_variant") ? "_ZTISt18bad_variant_access"
                       : n.contains("bad_cast") ? "_ZTISt8bad_cast" : "_ZTISt9exception";
      auto* g = M->getNamedValue(ti);
      if (!g) {
        // remember a recognisable identity: nothing in the module can catch it by name
        throwTyped(s, stdTypeInfo("_ZTISt9exception"));
        return true;
      }
      throwTyped(s, g_gaddr[g]);
      return true;
    }
    case B_FLOOR: {
      StringRef n = F->getName();
      if (n.ends_with("f") && n != "f") n = n.drop_back();
      E e = toE(a[0]);
      if (n == "fabs") return fin(fromE(fabsE(e)));
      if (n == "sqrt") return fin(fromE(mkFpUn(Op::FSQRT, e, e->w)));
      if (n == "llround" || n == "lround") return fin(fromE(mkFpUn(Op::FP2SI, roundE(e, RM_AWAY), 64)));
      int rm = n == "floor" ? RM_DOWN : n == "ceil" ? RM_UP : n == "trunc" ? RM_ZERO : n == "round" ? RM_AWAY : RM_NEAREST;
      return fin(fromE(roundE(e, rm)));
    }
    case B_MATH1: {
      if (!a[0].conc()) throw Unsup{"transcendental function of a symbolic value"};
      double x = asD(a[0]);
      StringRef n = F->getName();
      double r = n == "log" ? log(x) : n == "log2" ? log2(x) : n == "log10" ? log10(x) : n == "exp" ? exp(x)
               : n == "sin" ? sin(x) : n == "cos" ? cos(x) : n == "tan" ? tan(x) : n == "asin" ? asin(x)
               : n == "acos" ? acos(x) : n == "atan" ? atan(x) : exp2(x);
      return fin(fromD(r));
    }
    case B_MATH2: {
      if (!a[0].conc() || !a[1].conc()) throw Unsup{"transcendental function of a symbolic value"};
      StringRef n = F->getName();
      double x = asD(a[0]);
      if (n == "ldexp") return fin(fromD(ldexp(x, (int)a[1].v)));
      double y = asD(a[1]);
      return fin(fromD(n == "pow" ? pow(x, y) : n == "fmod" ? fmod(x, y) : atan2(x, y)));
    }
    case B_SYM8: return fin(freshVar(s, readCStr(s, a[0].v), 8));
    case B_SYM16: return fin(freshVar(s, readCStr(s, a[0].v), 16));
    case B_SYM32: return fin(freshVar(s, readCStr(s, a[0].v), 32));
    case B_SYM64: return fin(freshVar(s, readCStr(s, a[0].v), 64));
    case B_SYMMAKE: {
      uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
      std::string nm = readCStr(s, a[2].v);
      for (uint64_t i = 0; i < n; ++i) storeMem(s, cv(64, p + i), 1, freshVar(s, nm, 8));
      return fin(Val());
    }
    case B_ASSUME: {
      E c = toE(a[0]);
      if (c->w != 1) c = mkNe(c, mkConst(c->w, 0));
      if (c->isConst()) {
        if (!c->c.getBoolValue()) {
          ++g_assumeKilled;
          throw Kill();
        }
        return fin(Val());
      }
      if (!modelTrue(s, c)) {
        ModelP m;
        Res r = checkSat(s.cs, c, s.model, m);
        if (r == Res::UNSAT) {
          ++g_assumeKilled;
          throw Kill();
        }
        if (r == Res::UNKNOWN) {
          incomplete("solver gave no answer on an assumption");
          throw Kill();
        }
        s.model = m;
      }
      addC(s, c);
      return fin(Val());
    }
    case B_ASSERT: {
      E c = toE(a[0]);
      if (c->w != 1) c = mkNe(c, mkConst(c->w, 0));
      ++g_asserts;
      std::string msg = readCStr(s, concretize(s, a[1]));
      s.covers.insert("assert:" + msg);
      if (c->isConst()) {
        if (!c->c.getBoolValue()) fail(s, "assert", msg);
        return fin(Val());
      }
      ++g_assertQueries;
      ModelP m;
      Res r;
      E nc = mkNot(c);
      if (!modelTrue(s, c)) {
        m = s.model;
        r = Res::SAT;
      } else
        r = checkSat(s.cs, nc, s.model, m);
      if (r == Res::SAT) {
        report(s, "assert", msg, m);
        // go on with the inputs that satisfy it
        ModelP m2;
        if (checkSat(s.cs, c, modelTrue(s, c) ? s.model : nullptr, m2) != Res::SAT) throw Kill();
        s.model = m2;
      } else if (r == Res::UNKNOWN)
        incomplete("solver gave no answer on assertion: " + msg);
      addC(s, c);
      return fin(Val());
    }
    case B_COVER: s.covers.insert(readCStr(s, a[0].v)); return fin(Val());
    case B_OBSERVE: s.obs.push_back(a[0]); return fin(Val());
    case B_CONCR: {
      uint64_t v = concretize(s, a[0]);
      return fin(cv(64, v));
    }
    case B_DBG: {
      std::cerr << "dbg " << readCStr(s, a[0].v) << " = " << exprStr(toE(a[1]), 12) << "\n";
      return fin(Val());
    }
    case B_THREAD: {
      uint64_t fn = concretize(s, a[0]);
      auto it = g_faddr.find(fn);
      if (it == g_faddr.end()) fail(s, "memory", "thread start through an invalid pointer");
      Val arg = a[1];
      fin(Val());
      Thread t;
      KFunc* kf = prep(it->second);
      kf->execs++;
      Frame nf;
      nf.f = kf;
      nf.regs.resize(kf->nregs);
      nf.regs[0] = arg;
      t.st.push_back(std::move(nf));
      t.parent = s.cur;
      s.th.push_back(std::move(t));
      return true;
    }
    case B_JOIN: {
      bool others = !childrenDone(s, s.cur);
      fin(Val());
      if (others) {
        s.th[s.cur].status = 2;
        schedule(s, true);
      }
      return true;
    }
    case B_YIELD: {
      fin(Val());
      if (s.th.size() > 1) schedule(s, false);
      return true;
    }
    case B_SHARED: {
      uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
      s.shared.push_back({p, n});
      return fin(Val());
    }
    case B_YIELDA: {
      if (s.th.size() < 2 || s.shared.empty()) return fin(Val());
      uint64_t p = concretize(s, a[0]);
      fin(Val());
      for (auto& r : s.shared)
        if (p - r.first < r.second) {
          if (!spinning(s, p)) schedule(s, false);
          break;
        }
      return true;
    }
    case B_LOCK: {
      uint64_t p = concretize(s, a[0]);
      auto it = s.locks.find(p);
      if (it != s.locks.end() && it->second != 0) {
        if (s.th.size() == 1) fail(s, "deadlock", "lock taken twice");
        return blockOn(s, p);
      }
      s.locks[p] = -1;
      fin(cv(32, 0));
      return true;
    }
    case B_TRYLOCK: {
      uint64_t p = concretize(s, a[0]);
      if (s.locks[p] != 0) return fin(cv(32, 16));
      s.locks[p] = -1;
      return fin(cv(32, 0));
    }
    case B_RDLOCK: {
      uint64_t p = concretize(s, a[0]);
      auto it = s.locks.find(p);
      if (it != s.locks.end() && it->second < 0) {
        if (s.th.size() == 1) fail(s, "deadlock", "lock taken twice");
        return blockOn(s, p);
      }
      s.locks[p]++;
      return fin(cv(32, 0));
    }
    case B_UNLOCK: {
      uint64_t p = concretize(s, a[0]);
      int& l = s.locks[p];
      if (l < 0) l = 0;
      else if (l > 0) --l;
      else fail(s, "lock", "unlock of a lock that is not held");
      if (l == 0)
        for (auto& t : s.th)
          if (t.status == 3 && t.waitAddr == p) t.status = 0;
      fin(cv(32, 0));
      if (s.th.size() > 1) schedule(s, false);
      return true;
    }
    default: throw Unsup{"builtin " + F->getName().str()};
  }
}
