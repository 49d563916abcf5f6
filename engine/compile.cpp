// Loading of bitcode and lowering of LLVM IR functions to the interpreter's form.
#include "engine.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/LowerExpectIntrinsic.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/DCE.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Support/Error.h>
using namespace llvm;

std::string rustDemangle(const std::string &n) {
  if (n.compare(0, 3, "_ZN") != 0) return n;
  size_t i = 3; std::vector<std::string> parts;
  while (i < n.size() && isdigit(n[i])) {
    size_t len = 0; while (i < n.size() && isdigit(n[i])) len = len * 10 + (n[i++] - '0');
    if (i + len > n.size()) return n;
    parts.push_back(n.substr(i, len)); i += len;
  }
  if (!parts.empty() && parts.back().size() == 17 && parts.back()[0] == 'h') parts.pop_back();
  std::string out;
  for (size_t k = 0; k < parts.size(); k++) {
    std::string &p = parts[k]; std::string r; size_t j = 0;
    if (p.size() > 1 && p[0] == '_' && p[1] == '$') j = 1;
    while (j < p.size()) {
      if (p[j] == '$') {
        size_t e = p.find('$', j + 1); if (e == std::string::npos) { r += p.substr(j); break; }
        std::string t = p.substr(j + 1, e - j - 1);
        if (t == "LT") r += '<'; else if (t == "GT") r += '>'; else if (t == "RF") r += '&'; else if (t == "BP") r += '*';
        else if (t == "LP") r += '('; else if (t == "RP") r += ')'; else if (t == "C") r += ','; else if (t == "SP") r += '@';
        else if (t.size() > 1 && t[0] == 'u') r += (char)strtol(t.c_str() + 1, 0, 16);
        else r += "$" + t + "$";
        j = e + 1;
      } else if (p[j] == '.' && j + 1 < p.size() && p[j + 1] == '.') { r += "::"; j += 2; }
      else r += p[j++];
    }
    if (k) out += "::";
    out += r;
  }
  return out;
}

unsigned slotCount(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : st->elements()) n += slotCount(e); return n; }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slotCount(at->getElementType());
  if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
  return 1;
}
static unsigned scalarW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (auto *vt = dyn_cast<FixedVectorType>(t)) return scalarW(vt->getElementType());
  return 0;
}
void leavesOf(Type *t, const DataLayout &DL, u64 off, std::vector<Leaf> &out) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), DL, off + sl->getElementOffset(i), out);
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 sz = DL.getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), DL, off + i * sz, out);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    u64 bits = scalarW(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back(Leaf{(uint32_t)(off + i * ((bits + 7) / 8)), (uint16_t)bits});
  } else out.push_back(Leaf{(uint32_t)off, (uint16_t)scalarW(t)});
}

void Engine::loadModule(const std::string &path) {
  auto buf = MemoryBuffer::getFile(path);
  if (!buf) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(72); }
  // rustc 1.74 lays out i128 with 8-byte alignment; LLVM 18's auto-upgrade would change that
  ParserCallbacks cb([](StringRef, StringRef dl) -> std::optional<std::string> {
    std::string d = dl.str(); size_t k = d.find("-i128:128"); if (k != std::string::npos) d.erase(k, 9);
    return d;
  });
  auto m = getOwningLazyBitcodeModule(std::move(*buf), ctx, false, false, cb);
  if (!m) { std::string s; raw_string_ostream o(s); o << m.takeError(); fprintf(stderr, "bad bitcode %s: %s\n", path.c_str(), s.c_str()); exit(72); }
  Module *M = m->get();
  for (auto &F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage() && !F.hasAvailableExternallyLinkage()) {
    auto it = defs.find(F.getName().str());
    if (it == defs.end() || (it->second->isWeakForLinker() && !F.isWeakForLinker())) defs[F.getName().str()] = &F;
  }
  for (auto &G : M->globals()) if (!G.isDeclaration() && !G.hasLocalLinkage() && !G.hasAvailableExternallyLinkage()) gdefs.emplace(G.getName().str(), &G);
  for (auto &A : M->aliases()) if (!A.hasLocalLinkage()) adefs.emplace(A.getName().str(), &A);
  mods.push_back(std::move(*m));
}

FuncRef *Engine::frefNamed(const std::string &n) {
  auto it = frefByName.find(n);
  if (it != frefByName.end()) return it->second;
  auto *r = new FuncRef(); r->name = n; r->dem = rustDemangle(n); frefByName[n] = r;
  auto d = defs.find(n); if (d != defs.end()) r->decl = d->second;
  return r;
}
FuncRef *Engine::fref(Function *F) {
  auto it = frefs.find(F);
  if (it != frefs.end()) return it->second;
  FuncRef *r;
  if (F->hasLocalLinkage()) { r = new FuncRef(); r->name = F->getName().str(); r->dem = rustDemangle(r->name); r->decl = F; r->def = F; }
  else { r = frefNamed(F->getName().str()); if (!r->decl) r->decl = F; }
  frefs[F] = r;
  return r;
}
u64 Engine::funcAddr(FuncRef *r) {
  if (!r->addr) { fAddrs.push_back(r); r->addr = ((u64)(0x40000000u + fAddrs.size()) << 32) ; }
  return r->addr;
}
void Engine::resolve(FuncRef *r) {
  if (r->resolved) return;
  r->resolved = true;
  auto o = overrides.find(r->name); if (o == overrides.end()) o = overrides.find(r->dem);
  if (o != overrides.end() && o->second != r->name) {
    auto d = defs.find(o->second);
    if (d == defs.end()) { fprintf(stderr, "override target %s missing\n", o->second.c_str()); exit(72); }
    r->def = d->second; return;
  }
  auto b = builtins.find(r->name); if (b != builtins.end()) { r->bi = b->second; return; }
  auto bd = builtinsDem.find(r->dem); if (bd != builtinsDem.end()) { r->bi = bd->second; return; }
  if (r->def) return;
  auto d = defs.find(r->name); if (d != defs.end()) { r->def = d->second; return; }
  auto a = adefs.find(r->name);
  if (a != adefs.end()) if (auto *F = dyn_cast<Function>(a->second->getAliasee()->stripPointerCasts())) r->def = F;
}
u64 Engine::globalAddr(GlobalVariable *G) {
  auto it = gAddr.find(G);
  if (it != gAddr.end()) return it->second;
  if (!G->hasLocalLinkage()) {
    auto d = gdefs.find(G->getName().str());
    if (d != gdefs.end() && d->second != G) { u64 a = globalAddr(d->second); gAddr[G] = a; return a; }
    if (d == gdefs.end() && G->isDeclaration()) {
      auto e = extGlobals.find(G->getName().str());
      if (e != extGlobals.end()) { gAddr[G] = e->second; return e->second; }
      // weak external: the address of a builtin function if there is one, else null
      if (G->hasExternalWeakLinkage()) {
        std::string n = G->getName().str();
        u64 a = 0; if (builtins.count(n) || defs.count(n)) a = funcAddr(frefNamed(n));
        gAddr[G] = a; return a;
      }
      if (defs.count(G->getName().str()) || builtins.count(G->getName().str())) { u64 a = funcAddr(frefNamed(G->getName().str())); gAddr[G] = a; return a; }
    }
  }
  if (gByIdx.empty()) { gByIdx.push_back(nullptr); gInit.push_back(nullptr); }
  uint32_t idx = gByIdx.size(); gByIdx.push_back(G); gInit.push_back(nullptr);
  u64 a = (u64)idx << 32; gAddr[G] = a; if (G->isThreadLocal()) tlsIdx[idx] = 1;
  if (!G->hasLocalLinkage() && G->isDeclaration()) extGlobals[G->getName().str()] = a;
  return a;
}
void Engine::fillInit(Obj *o, u64 off, Constant *c, const DataLayout &DL) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues(); memcpy(o->data + off, raw.data(), raw.size()); return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL.getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) fillInit(o, off + sl->getElementOffset(i), cs->getOperand(i), DL);
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    u64 sz = DL.getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) fillInit(o, off + i * sz, ca->getOperand(i), DL);
    return;
  }
  std::vector<Val> vs; evalConst(c, DL, vs);
  std::vector<Leaf> lv; leavesOf(c->getType(), DL, off, lv);
  for (size_t i = 0; i < lv.size(); i++) { u128 x = cv128(vs[i]); memcpy(o->data + lv[i].off, &x, (lv[i].w + 7) / 8); }
}
Obj *Engine::initObj(uint32_t idx) {
  if (idx == 0 || idx >= gByIdx.size()) return nullptr;
  if (gInit[idx]) return gInit[idx];
  GlobalVariable *G = gByIdx[idx];
  auto &DL = G->getParent()->getDataLayout();
  Obj *o = new Obj(); 
  if (G->isDeclaration()) { // unknown external data: zero page, reported if reached
    o->size = 64; o->data = (uint8_t*)calloc(1, 64); o->kind = 0; gInit[idx] = o; return o;
  }
  u64 sz = DL.getTypeAllocSize(G->getValueType());
  o->size = sz; o->data = (uint8_t*)calloc(1, sz ? sz : 1); o->kind = 0; o->ro = G->isConstant(); gInit[idx] = o;
  if (G->isMaterializable()) (void)!!G->materialize();
  fillInit(o, 0, G->getInitializer(), DL);
  return o;
}
static u128 apv(const APInt &a) { u128 r = a.getRawData()[0]; if (a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64; return r; }

void Engine::evalConst(Constant *c, const DataLayout &DL, std::vector<Val> &out) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 128) { out.push_back(Val()); return; } out.push_back(mk128(apv(ci->getValue()))); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(mk128(apv(cf->getValueAPF().bitcastToAPInt()))); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(Val()); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (unsigned i = 0; i < slotCount(c->getType()); i++) out.push_back(Val()); return; }
  if (auto *F = dyn_cast<Function>(c)) { out.push_back(cval(funcAddr(fref(F)))); return; }
  if (auto *G = dyn_cast<GlobalVariable>(c)) { out.push_back(cval(globalAddr(G))); return; }
  if (auto *A = dyn_cast<GlobalAlias>(c)) { evalConst(A->getAliasee(), DL, out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), DL, out); return; }
  if (isa<ConstantAggregate>(c)) { for (auto &op : c->operands()) evalConst(cast<Constant>(op), DL, out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto ev = [&](unsigned i) { std::vector<Val> t; evalConst(ce->getOperand(i), DL, t); return cv128(t.at(0)); };
    unsigned w = scalarW(ce->getType()); u128 m = maskw(w);
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce); APInt off(64, 0);
      if (gep->accumulateConstantOffset(DL, off)) { out.push_back(mk128((ev(0) + (u128)(u64)off.getSExtValue()) & maskw(64))); return; }
      u64 base = (u64)ev(0);
      unsigned opi = 1;
      for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti, ++opi) {
        u64 ix = (u64)ev(opi);
        if (StructType *st = gti.getStructTypeOrNull()) base += DL.getStructLayout(st)->getElementOffset(ix);
        else base += ix * DL.getTypeAllocSize(gti.getIndexedType());
      }
      out.push_back(cval(base)); return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: evalConst(ce->getOperand(0), DL, out); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: out.push_back(mk128(ev(0) & m)); return;
    case Instruction::SExt: out.push_back(mk128((u128)sext128(ev(0), scalarW(ce->getOperand(0)->getType())) & m)); return;
    case Instruction::Add: out.push_back(mk128(foldBin(E_ADD, w, ev(0), ev(1)))); return;
    case Instruction::Sub: out.push_back(mk128(foldBin(E_SUB, w, ev(0), ev(1)))); return;
    case Instruction::Mul: out.push_back(mk128(foldBin(E_MUL, w, ev(0), ev(1)))); return;
    case Instruction::And: out.push_back(mk128(foldBin(E_AND, w, ev(0), ev(1)))); return;
    case Instruction::Or: out.push_back(mk128(foldBin(E_OR, w, ev(0), ev(1)))); return;
    case Instruction::Xor: out.push_back(mk128(foldBin(E_XOR, w, ev(0), ev(1)))); return;
    case Instruction::Shl: out.push_back(mk128(foldBin(E_SHL, w, ev(0), ev(1)))); return;
    case Instruction::LShr: out.push_back(mk128(foldBin(E_LSHR, w, ev(0), ev(1)))); return;
    case Instruction::ICmp: {
      u128 a = ev(0), b = ev(1); unsigned ow = scalarW(ce->getOperand(0)->getType()); bool r = false;
      switch (cast<ConstantExpr>(ce)->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_SLT: r = sext128(a, ow) < sext128(b, ow); break; default: break; }
      out.push_back(cval(r)); return; }
    default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o);
  fprintf(stderr, "unsupported constant: %s\n", s.c_str()); exit(73);
}

namespace {
struct PM {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; FunctionPassManager FPM;
  PM() {
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(EarlyCSEPass(false));
    FPM.addPass(InstCombinePass());
    FPM.addPass(SimplifyCFGPass());
    FPM.addPass(DCEPass());
  }
};
}
static PM *pm() { static PM *p = new PM(); return p; }

KFunc *Engine::compile(FuncRef *r) {
  if (r->k) return r->k;
  Function *F = r->def;
  static std::unordered_map<Function*, KFunc*> done;
  auto dit = done.find(F); if (dit != done.end()) return r->k = dit->second;
  if (F->isMaterializable()) { if (auto e = F->materialize()) { std::string s; raw_string_ostream o(s); o << e; fprintf(stderr, "materialize: %s\n", s.c_str()); exit(72); } }
  F->removeFnAttr(Attribute::OptimizeNone);
  if (!getenv("SYM_NOOPT")) { pm()->FPM.run(*F, pm()->FAM); pm()->FAM.clear(); pm()->MAM.clear(); pm()->CAM.clear(); pm()->LAM.clear(); }
  const DataLayout &DL = F->getParent()->getDataLayout();
  KFunc *K = new KFunc(); K->F = F; K->name = F->getName().str(); K->dem = rustDemangle(K->name);
  r->k = K; done[F] = K; kfuncs.push_back(K);
  std::unordered_map<const Value*, int> slot; unsigned next = 0;
  std::unordered_map<const Constant*, int> cslot;
  for (auto &A : F->args()) { slot[&A] = next; next += slotCount(A.getType()); }
  K->nargs = next;
  { std::vector<Leaf> lv; if (!F->getReturnType()->isVoidTy()) leavesOf(F->getReturnType(), DL, 0, lv); for (auto &l : lv) K->retw.push_back(l.w); }
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) { slot[&I] = next; next += slotCount(I.getType()); }
  K->nregs = next;
  std::string cErr;
  auto S = [&](const Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c); if (it != cslot.end()) return it->second;
      std::vector<Val> vs; evalConst(const_cast<Constant*>(c), DL, vs);
      if (vs.size() == 1 && c->getType()->isPointerTy() && !tlsIdx.empty() && tlsIdx.count(vs[0].lo >> 32)) {
        int sl = K->nregs++; K->tls.push_back({sl, (uint32_t)(vs[0].lo >> 32), (uint32_t)vs[0].lo}); return cslot[c] = sl;
      }
      // multi-slot constants occupy consecutive pool entries; index i is at pool[base+i], addressed by ~(base+i)
      int base = K->consts.size(); for (auto &x : vs) K->consts.push_back(x);
      if (vs.empty()) K->consts.push_back(Val());
      return cslot[c] = ~base;
    }
    auto it = slot.find(v);
    if (it == slot.end()) return ~0;
    return it->second;
  };
  K->consts.push_back(Val());
  std::unordered_map<const BasicBlock*, uint32_t> bpos;
  struct Patch { KExtra *x; size_t e; const BasicBlock *from, *to; };
  std::vector<Patch> patches;
  auto aggOff = [&](Type *t, ArrayRef<unsigned> idx, Type *&res) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += slotCount(st->getElementType(j)); t = st->getElementType(i); }
      else { auto *at = cast<ArrayType>(t); off += i * slotCount(at->getElementType()); t = at->getElementType(); }
    }
    res = t; return off;
  };
  for (auto &B : *F) {
    bpos[&B] = K->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      KInst k; k.op = K_UNSUPPORTED; Type *ty = I.getType();
      if (!ty->isVoidTy()) { k.dst = slot[&I]; k.n = slotCount(ty); k.w = scalarW(ty); }
      auto unsup = [&](const std::string &m) { k.op = K_UNSUPPORTED; if (!k.x) k.x = new KExtra(); k.x->msg = m; };
      auto addEdge = [&](const BasicBlock *to) { if (!k.x) k.x = new KExtra(); k.x->edges.emplace_back(); patches.push_back({k.x, k.x->edges.size() - 1, &B, to}); };
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
        k.a = S(bo->getOperand(0)); k.b = S(bo->getOperand(1)); k.op = K_BIN;
        switch (bo->getOpcode()) {
        case Instruction::Add: k.sub = E_ADD; break; case Instruction::Sub: k.sub = E_SUB; break; case Instruction::Mul: k.sub = E_MUL; break;
        case Instruction::UDiv: k.sub = E_UDIV; break; case Instruction::SDiv: k.sub = E_SDIV; break; case Instruction::URem: k.sub = E_UREM; break; case Instruction::SRem: k.sub = E_SREM; break;
        case Instruction::And: k.sub = E_AND; break; case Instruction::Or: k.sub = E_OR; break; case Instruction::Xor: k.sub = E_XOR; break;
        case Instruction::Shl: k.sub = E_SHL; break; case Instruction::LShr: k.sub = E_LSHR; break; case Instruction::AShr: k.sub = E_ASHR; break;
        default: k.op = K_FBIN; k.sub = bo->getOpcode() - Instruction::BinaryOpsBegin; k.w2 = bo->getOpcode(); break;
        }
      } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
        k.op = K_ICMP; k.sub = ic->getPredicate(); k.a = S(ic->getOperand(0)); k.b = S(ic->getOperand(1)); k.w = scalarW(ic->getOperand(0)->getType());
      } else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
        k.op = K_FCMP; k.sub = fc->getPredicate(); k.a = S(fc->getOperand(0)); k.b = S(fc->getOperand(1)); k.w = scalarW(fc->getOperand(0)->getType());
      } else if (I.getOpcode() == Instruction::FNeg) { k.op = K_FNEG; k.a = S(I.getOperand(0)); }
      else if (auto *se = dyn_cast<SelectInst>(&I)) {
        k.op = K_SELECT; k.a = S(se->getCondition()); k.b = S(se->getTrueValue()); k.c = S(se->getFalseValue()); k.sub = se->getCondition()->getType()->isVectorTy();
        k.x = new KExtra(); leavesOf(ty, DL, 0, k.x->leaves);
      } else if (auto *fz = dyn_cast<FreezeInst>(&I)) { k.op = K_COPY; k.a = S(fz->getOperand(0)); }
      else if (auto *ca = dyn_cast<CastInst>(&I)) {
        Type *st = ca->getSrcTy(); k.a = S(ca->getOperand(0)); k.w2 = scalarW(st);
        switch (ca->getOpcode()) {
        case Instruction::BitCast: if (slotCount(st) == 1 && k.n == 1) k.op = K_COPY; else { k.op = K_BITCAST; k.c = slotCount(st); } break;
        case Instruction::AddrSpaceCast: k.op = K_COPY; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: k.op = K_CAST; k.sub = k.w < k.w2 ? Instruction::Trunc : Instruction::ZExt; if (k.w == k.w2) k.op = K_COPY; break;
        default: k.op = K_CAST; k.sub = ca->getOpcode(); break;
        }
      } else if (auto *ld = dyn_cast<LoadInst>(&I)) {
        k.op = K_LOAD; k.a = S(ld->getPointerOperand()); k.x = new KExtra(); leavesOf(ty, DL, 0, k.x->leaves);
      } else if (auto *sto = dyn_cast<StoreInst>(&I)) {
        k.op = K_STORE; k.a = S(sto->getPointerOperand()); k.b = S(sto->getValueOperand()); k.x = new KExtra(); leavesOf(sto->getValueOperand()->getType(), DL, 0, k.x->leaves);
      } else if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
        if (ty->isVectorTy()) unsup("vector gep");
        else {
          k.op = K_GEP; k.a = S(gep->getPointerOperand()); k.x = new KExtra(); unsigned opi = 1;
          for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti, ++opi) {
            Value *ix = gep->getOperand(opi);
            if (StructType *st = gti.getStructTypeOrNull()) { k.x->gepConst += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            i64 sz = DL.getTypeAllocSize(gti.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) k.x->gepConst += ci->getSExtValue() * sz;
            else k.x->gep.push_back({S(ix), (int)scalarW(ix->getType()), sz});
          }
        }
      } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
        k.op = K_ALLOCA; k.a = S(al->getArraySize()); k.x = new KExtra(); k.x->allocSize = DL.getTypeAllocSize(al->getAllocatedType());
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isUnconditional()) { k.op = K_BR; addEdge(br->getSuccessor(0)); }
        else { k.op = K_CONDBR; k.a = S(br->getCondition()); addEdge(br->getSuccessor(0)); addEdge(br->getSuccessor(1)); }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        k.op = K_SWITCH; k.a = S(sw->getCondition()); k.w = scalarW(sw->getCondition()->getType());
        addEdge(sw->getDefaultDest()); std::unordered_map<const BasicBlock*, uint32_t> eidx;
        eidx[sw->getDefaultDest()] = 0;
        for (auto &cs : sw->cases()) {
          auto it = eidx.find(cs.getCaseSuccessor());
          if (it == eidx.end()) { addEdge(cs.getCaseSuccessor()); it = eidx.emplace(cs.getCaseSuccessor(), k.x->edges.size() - 1).first; }
          k.x->caseVals.push_back(apv(cs.getCaseValue()->getValue())); k.x->caseEdge.push_back(it->second);
        }
      } else if (auto *rt = dyn_cast<ReturnInst>(&I)) {
        k.op = K_RET; if (rt->getReturnValue()) { k.a = S(rt->getReturnValue()); k.n = slotCount(rt->getReturnValue()->getType()); } else k.n = 0;
      } else if (isa<UnreachableInst>(I)) k.op = K_UNREACHABLE;
      else if (auto *cb = dyn_cast<CallBase>(&I)) {
        k.x = new KExtra();
        Function *callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!callee) if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        unsigned ai = 0; 
        bool metaArgs = callee && callee->isIntrinsic();
        for (auto &arg : cb->args()) {
          if (arg->getType()->isMetadataTy() || arg->getType()->isTokenTy()) { ai++; continue; }
          int s = S(arg); unsigned n = slotCount(arg->getType()); std::vector<Leaf> lv; leavesOf(arg->getType(), DL, 0, lv);
          if (cb->paramHasAttr(ai, Attribute::ByVal)) k.x->byvals.push_back({(int)k.ops.size(), DL.getTypeAllocSize(cb->getParamByValType(ai))});
          for (unsigned j = 0; j < n; j++) { k.ops.push_back(s >= 0 ? s + (int)j : s - (int)j); k.x->argw.push_back(lv[j].w); }
          ai++;
        }
        (void)metaArgs;
        if (cb->isInlineAsm()) {
          auto *ia = cast<InlineAsm>(cb->getCalledOperand());
          if (ia->getAsmString().empty() ) { k.op = K_NOP; if (!ty->isVoidTy()) { k.op = K_COPY; k.a = k.ops.empty() ? ~0 : k.ops[0]; } }
          else if (ia->getAsmString().find("pause") != std::string::npos) k.op = K_NOP;
          else unsup("inline asm: " + ia->getAsmString());
        } else if (callee && callee->isIntrinsic()) {
          k.op = K_INTRIN; k.x->iid = callee->getIntrinsicID(); k.x->msg = callee->getName().str();
          switch (callee->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
          case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch:
          case Intrinsic::sideeffect: case Intrinsic::donothing:
            k.op = K_NOP; break;
          default: break;
          }
          // operand vector length for lane-wise intrinsics
          k.c = cb->arg_size() ? slotCount(cb->getArgOperand(0)->getType()->isMetadataTy() ? Type::getInt32Ty(ctx) : cb->getArgOperand(0)->getType()) : 0;
        } else {
          k.op = K_CALL; 
          if (callee) k.x->callee = fref(callee); else k.a = S(cb->getCalledOperand());
        }
        if (!ty->isVoidTy()) { std::vector<Leaf> lv; leavesOf(ty, DL, 0, lv); k.x->leaves = lv; }
        if (k.op == K_INTRIN && ty->isVoidTy()) k.n = 0;
        if (auto *inv = dyn_cast<InvokeInst>(&I)) {
          K->code.push_back(k);
          KInst j; j.op = K_BR; j.x = new KExtra(); j.x->edges.emplace_back(); patches.push_back({j.x, 0, &B, inv->getNormalDest()});
          K->code.push_back(j); continue;
        }
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        Type *rt2; int off = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices(), rt2); int s = S(ev->getAggregateOperand());
        k.op = K_COPY; k.a = s >= 0 ? s + off : s - off;
      } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        Type *rt2; int off = aggOff(iv->getAggregateOperand()->getType(), iv->getIndices(), rt2);
        k.op = K_INSERTVAL; k.a = S(iv->getAggregateOperand()); k.b = S(iv->getInsertedValueOperand()); k.c = off; k.w2 = slotCount(rt2);
      } else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) {
        k.op = K_EXTRACTELT; k.a = S(ee->getVectorOperand()); k.b = S(ee->getIndexOperand()); k.c = slotCount(ee->getVectorOperand()->getType());
      } else if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
        k.op = K_INSERTELT; k.a = S(ie->getOperand(0)); k.b = S(ie->getOperand(1)); k.c = S(ie->getOperand(2));
      } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
        k.op = K_SHUFFLE; k.a = S(sv->getOperand(0)); k.b = S(sv->getOperand(1)); k.c = slotCount(sv->getOperand(0)->getType()); k.x = new KExtra();
        for (int m : sv->getShuffleMask()) k.x->mask.push_back(m);
      } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
        k.op = K_RMW; k.sub = rm->getOperation(); k.a = S(rm->getPointerOperand()); k.b = S(rm->getValOperand());
      } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
        k.op = K_CMPXCHG; k.a = S(cx->getPointerOperand()); k.b = S(cx->getCompareOperand()); k.c = S(cx->getNewValOperand()); k.w = scalarW(cx->getCompareOperand()->getType());
      } else if (isa<FenceInst>(I)) k.op = K_NOP;
      else if (isa<LandingPadInst>(I) || isa<ResumeInst>(I)) { unsup("unwinding"); }
      else { std::string s; raw_string_ostream o(s); I.print(o); unsup(s); }
      if (k.w > 128) unsup("integer wider than 128 bits");
      K->code.push_back(k);
    }
  }
  for (auto &p : patches) {
    KEdge &e = p.x->edges[p.e]; e.target = bpos[p.to];
    for (auto &phi : p.to->phis()) {
      int src = S(phi.getIncomingValueForBlock(p.from)); int d = slot[&phi]; unsigned n = slotCount(phi.getType());
      for (unsigned j = 0; j < n; j++) e.moves.push_back({d + (int)j, src >= 0 ? src + (int)j : src - (int)j});
    }
  }
  for (auto &p : repoPrefixes) if (K->dem.find(p) != std::string::npos) K->inRepo = true;
  return K;
}
