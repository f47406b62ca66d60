// Writes the facts the property rules (checks/*.py) work on.
#include "interp.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using llvm::json::Array; using llvm::json::Object; using llvm::json::Value;
static std::string str(StringRef s) { return json::isUTF8(s) ? s.str() : json::fixUTF8(s); }
static bool cstr(const Constant *c, std::string &out) {
  auto *gv = dyn_cast<GlobalVariable>(c->stripPointerCasts()); if (!gv || !gv->isConstant() || !gv->hasInitializer()) return false;
  if (isa<ConstantAggregateZero>(gv->getInitializer()) && gv->getValueType()->isArrayTy() && gv->getValueType()->getArrayElementType()->isIntegerTy(8)) { out = ""; return gv->getName().starts_with(".str"); }
  auto *ca = dyn_cast<ConstantDataArray>(gv->getInitializer()); if (!ca || !ca->isString()) return false;
  StringRef s = ca->getAsString(); size_t z = s.find('\0'); if (z != StringRef::npos && z + 1 == s.size()) s = s.substr(0, z); out = s.str(); return gv->getName().starts_with(".str");
}
static json::Value constJ(const Constant *c, int depth) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? json::Value(i->getSExtValue()) : json::Value(nullptr);
  if (isa<ConstantPointerNull>(c)) return 0;
  std::string s; if (c->getType()->isPointerTy() && cstr(c, s)) { std::string hex; if (!json::isUTF8(s)) { for (unsigned char ch : s) { char b[3]; snprintf(b, 3, "%02x", ch); hex += b; } return "x:" + hex; } return "s:" + s; }
  if (auto *f = dyn_cast<Function>(c->stripPointerCasts())) return "f:" + f->getName().str();
  if (auto *g = dyn_cast<GlobalVariable>(c->stripPointerCasts())) return "g:" + g->getName().str();
  if (isa<ConstantAggregateZero>(c)) { if (depth <= 0) return nullptr; unsigned n = 0; if (auto *st = dyn_cast<StructType>(c->getType())) n = st->getNumElements(); else if (auto *at = dyn_cast<ArrayType>(c->getType())) n = at->getNumElements(); if (n > 256) return "zero"; Array a; for (unsigned i = 0; i < n; i++) a.push_back(constJ(c->getAggregateElement(i), depth - 1)); return std::move(a); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { Array a; if (cd->getElementType()->isIntegerTy()) for (unsigned i = 0; i < cd->getNumElements(); i++) { auto *e = cast<ConstantInt>(cd->getElementAsConstant(i)); a.push_back(cd->getElementByteSize() <= 4 ? e->getZExtValue() : e->getSExtValue()); } return std::move(a); }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { Array a; if (depth > 0) for (auto &o : c->operands()) a.push_back(constJ(cast<Constant>(o), depth - 1)); return std::move(a); }
  return nullptr;
}
static json::Value argJ(Prog &P, const FnInfo &fi, const llvm::Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constJ(c, 0);
  const llvm::Value *u = v; for (int i = 0; i < 4; i++) { if (auto *ci = dyn_cast<CastInst>(u)) u = ci->getOperand(0); else break; }
  if (isa<SelectInst>(u) || isa<PHINode>(u)) { // a choice between constants
    Array alts; bool ok = true; std::set<const llvm::Value *> seen; std::function<void(const llvm::Value *)> w = [&](const llvm::Value *x) { if (!ok || !seen.insert(x).second) return; if (seen.size() > 12) { ok = false; return; } if (auto *si = dyn_cast<SelectInst>(x)) { w(si->getTrueValue()); w(si->getFalseValue()); } else if (auto *ph = dyn_cast<PHINode>(x)) { for (auto &iv : ph->incoming_values()) w(iv.get()); } else if (auto *c = dyn_cast<Constant>(x)) alts.push_back(constJ(c, 0)); else ok = false; };
    w(u); if (ok && !alts.empty()) return std::move(alts); }
  if (auto *a = dyn_cast<Argument>(u)) return "a:" + std::to_string(a->getArgNo());
  if (auto *L = dyn_cast<LoadInst>(u)) { int k = P.addrKey(L->getPointerOperand()); if (k > 0) { auto f = P.keyField[k]; return "m:" + (f.first ? P.fieldName(f.first, f.second) : P.keyName[k]); } return nullptr; }
  if (auto *G = dyn_cast<GEPOperator>(u)) { int k = P.addrKey(G); if (k > 0) { auto f = P.keyField[k]; return "&m:" + (f.first ? P.fieldName(f.first, f.second) : P.keyName[k]); } return nullptr; }
  if (isa<AllocaInst>(u)) return "l:";
  if (auto *CB = dyn_cast<CallBase>(u)) { auto t = P.targets(CB); if (!t.empty()) return "r:" + P.fname(t[0]); }
  return nullptr;
}
static Array names(Engine &E, const std::set<int> &s) { Array a; for (int c : s) a.push_back(E.lockClass[c]); return a; }
void writeStructural(Engine &E, json::OStream &J, std::map<const Function *, int> &id);
void writeEnums(Engine &E, json::OStream &J, std::map<const Function *, int> &id);
void writeRec(Engine &E, json::OStream &J, std::map<const Function *, int> &id);
void writeFail(Engine &E, json::OStream &J, std::map<const Function *, int> &id, int threads);
void writeGuard(Engine &E, json::OStream &J, std::map<const Function *, int> &id);
void writeUninit(Engine &E, json::OStream &J, std::map<const Function *, int> &id);
void writeFacts(Engine &E, const std::string &path) {
  Prog &P = E.P; std::error_code ec; raw_fd_ostream os(path, ec); json::OStream J(os);
  auto keyStr = [&](int k) { auto f = P.keyField[k]; return f.first ? P.fieldName(f.first, f.second) : P.keyName[k]; };
  std::map<const Function *, int> id; int n = 0; for (auto *f : P.order) id[f] = n++;
  J.objectBegin();
  J.attributeArray("functions", [&] { for (auto *F : P.order) { auto &fi = P.fn[F]; auto &o = *E.out[F]; Array pr; for (auto &a : F->args()) { std::string nm = "arg" + std::to_string(a.getArgNo()); pr.push_back(nm); }
      std::vector<std::string> pn(F->arg_size()); if (F->getSubprogram()) for (auto *nd : F->getSubprogram()->getRetainedNodes()) if (auto *v = dyn_cast<DILocalVariable>(nd)) if (v->getArg() && v->getArg() <= pn.size()) pn[v->getArg() - 1] = v->getName().str();
      Array ps; for (auto &a : F->args()) ps.push_back((a.getType()->isPointerTy() ? "*" : "") + pn[a.getArgNo()]);
      Array callers; for (auto *c : fi.callers) callers.push_back(id[c]);
      Array le; for (auto &l : o.lockExits) le.push_back(Array{E.lockClass[l.cls], l.delta, l.site, l.line});
      J.value(Object{{"name", fi.name}, {"ir", F->getName().str()}, {"file", fi.file}, {"line", fi.line}, {"public", fi.isPublic}, {"ptrs", [&] { int64_t m = 0; for (auto &a : F->args()) if (a.getType()->isPointerTy() && a.getArgNo() < 60) m |= 1ll << a.getArgNo(); return m; }()}, {"static", F->hasLocalLinkage()}, {"addr", fi.addrTaken}, {"scc", fi.scc}, {"rec", fi.recursive}, {"params", std::move(ps)}, {"callers", std::move(callers)}, {"trunc", o.truncated}, {"frees", (int64_t)o.sum.mayFree}, {"steps", (int64_t)o.steps}, {"obl", (int64_t)o.obligations}, {"blocks", (int64_t)fi.rpo.size()}, {"va", F->isVarArg()}, {"acq", Array{(int64_t)o.acqMem.size(), (int64_t)o.acqRes.size(), (int64_t)o.rels.size()}}, {"lockexits", std::move(le)}}); } });
  J.attributeArray("reports", [&] { for (auto *F : P.order) for (auto &r : E.out[F]->reports) { Array p; for (auto &x : r.path) p.push_back(x); J.value(Object{{"kind", r.kind}, {"fn", r.fn}, {"file", r.file}, {"line", r.line}, {"msg", str(r.msg)}, {"key", str(r.key)}, {"path", std::move(p)}}); } });
  J.attributeArray("calls", [&] { for (auto *F : P.order) { auto &fi = P.fn[F]; auto &o = *E.out[F]; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(CB) || CB->isInlineAsm()) continue;
      Array as; for (auto &a : CB->args()) as.push_back(argJ(P, fi, a.get()));
      Object ob{{"f", id[F]}, {"l", lineOf(CB)}, {"a", std::move(as)}, {"u", !CB->use_empty()}};
      if (CB->getFunctionType()->isVarArg()) { Array vt; for (unsigned i = CB->getFunctionType()->getNumParams(); i < CB->arg_size(); i++) { auto *t = CB->getArgOperand(i)->getType(); vt.push_back(t->isPointerTy() ? "p" : t->isIntegerTy() ? "i" + std::to_string(t->getIntegerBitWidth()) : t->isDoubleTy() ? "d" : "?"); } ob["vt"] = std::move(vt); ob["vi"] = (int64_t)CB->getFunctionType()->getNumParams(); }
      if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { ob["c"] = P.fname(C); if (!C->isDeclaration()) ob["ci"] = id[C]; }
      else { Array t; for (auto *x : P.targets(CB)) if (!x->isDeclaration()) t.push_back(id[x]); else t.push_back(x->getName().str()); ob["t"] = std::move(t); auto s = argJ(P, fi, CB->getCalledOperand()); ob["s"] = std::move(s); if (o.unguarded.count(CB)) ob["ng"] = true; }
      if (!o.visited.count(CB)) ob["dead"] = true; else { auto h = o.mustHeld.find(CB); if (h != o.mustHeld.end() && !h->second.empty()) ob["must"] = names(E, h->second); auto m = o.mayHeld.find(CB); if (m != o.mayHeld.end() && !m->second.empty()) ob["may"] = names(E, m->second); auto r = o.mustReleased.find(CB); if (r != o.mustReleased.end() && !r->second.empty()) ob["rel"] = names(E, r->second); }
      J.value(std::move(ob)); } } });
  J.attributeArray("mutexes", [&] { for (auto &m : E.mutexes) J.value(Array{id[m.fn], lineOf(m.I), m.cls, m.rec}); });
  J.attributeArray("acquires", [&] { for (auto *F : P.order) { std::set<std::pair<int, int>> seen; for (auto &a : E.out[F]->acquires) { auto *CB = dyn_cast<CallBase>(a.I); auto *C = CB ? dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()) : nullptr; bool prim = C && (C->isDeclaration() || !P.fn.count(C) || true); if (seen.insert({a.cls, lineOf(a.I)}).second) J.value(Object{{"f", id[F]}, {"cls", E.lockClass[a.cls]}, {"l", lineOf(a.I)}, {"by", C ? P.fname(C) : "?"}}); (void)prim; } } });
  // accesses to struct fields and globals with the locks known to be held
  J.attributeArray("accesses", [&] { for (auto *F : P.order) { auto &o = *E.out[F]; for (auto &I : instructions(F)) { const llvm::Value *pt = nullptr; bool w = false; if (auto *L = dyn_cast<LoadInst>(&I)) pt = L->getPointerOperand(); else if (auto *st = dyn_cast<StoreInst>(&I)) { pt = st->getPointerOperand(); w = true; } if (!pt) continue; int k = P.addrKey(pt); if (k == P.rawKey) continue; if (!o.visited.count(&I)) continue;
      auto sh = o.shared.find(&I); Array a{id[F], lineOf(&I), keyStr(k), w, sh != o.shared.end(), names(E, o.mustHeld[&I]), names(E, o.mustReleased[&I])}; J.value(std::move(a)); } } });
  J.attributeArray("globals", [&] { for (auto &g : P.M->globals()) { if (!g.hasInitializer() || g.getName().starts_with(".str") || g.getName().starts_with("llvm.")) continue; SmallVector<DIGlobalVariableExpression *, 1> dbg; g.getDebugInfo(dbg); std::string file, nm = g.getName().str(); int line = 0; std::string fnn; if (!dbg.empty()) { auto *v = dbg[0]->getVariable(); file = v->getFilename().str(); line = v->getLine(); nm = v->getName().str(); const char *r = getenv("MSTANA_REPO"); std::string root = r ? std::string(r) + "/" : "/repo/"; if (file.rfind(root, 0) == 0) file = file.substr(root.size()); if (auto *sp = dyn_cast_or_null<DISubprogram>(v->getScope())) fnn = sp->getName().str(); }
      std::string ty; { auto *t = g.getValueType(); while (auto *at = dyn_cast<ArrayType>(t)) { ty += "[]"; t = at->getElementType(); } if (auto *st = dyn_cast<StructType>(t)) { ty = (st->hasName() ? st->getName().str() : "anon") + ty; Array fa; for (unsigned i = 0; i < st->getNumElements(); i++) fa.push_back(P.fieldName(st, i)); J.value(Object{{"name", nm}, {"ir", g.getName().str()}, {"file", file}, {"line", line}, {"fn", fnn}, {"const", g.isConstant()}, {"type", ty}, {"fields", std::move(fa)}, {"init", constJ(g.getInitializer(), 4)}}); continue; } else { std::string q; raw_string_ostream ro(q); t->print(ro); ty = ro.str() + ty; } }
      J.value(Object{{"name", nm}, {"ir", g.getName().str()}, {"file", file}, {"line", line}, {"fn", fnn}, {"const", g.isConstant()}, {"type", ty}, {"init", constJ(g.getInitializer(), 4)}}); } });
  J.attributeArray("latents", [&] { for (auto *F : P.order) { auto &s = E.out[F]->sum; std::set<std::string> seen; for (auto &l : s.lat) { std::string e = symStr(l.ptr, &P, F); int arg = l.ptr->k == ARG ? (int)l.ptr->a : -1; if (!P.fn[F].isPublic) continue; J.value(Object{{"f", id[F]}, {"arg", arg}, {"sym", e}, {"where", l.where}}); } } });
  J.attributeArray("fstores", [&] { for (auto *F : P.order) for (auto &I : instructions(F)) if (auto *st = dyn_cast<StoreInst>(&I)) if (auto *c = dyn_cast<Constant>(st->getValueOperand()); c && st->getValueOperand()->getType()->isPointerTy()) { int k = P.addrKey(st->getPointerOperand()); if (k <= 0 || k == P.rawKey) continue; auto *f = dyn_cast<Function>(c->stripPointerCasts()); if (!f && !(isa<ConstantPointerNull>(c) && E.slotKeys.count(k))) continue; J.value(Array{id[F], lineOf(&I), keyStr(k), f ? P.fname(f) : ""}); } });
  J.attributeArray("slotinit", [&] { for (auto *F : P.order) for (auto &[k, w] : E.out[F]->slotInit) J.value(Array{id[F], keyStr(k), w == 1}); });
  J.attributeArray("drops", [&] { for (auto *F : P.order) for (auto &[x, d] : E.out[F]->drops) { Object m; for (auto &[k, a] : d.mem) m[k] = Array{a[0], a[1], a[2], a[3]}; Array dp; for (auto &k : d.deep) dp.push_back(k); J.value(Object{{"f", id[F]}, {"x", x}, {"n", d.n}, {"own", d.own}, {"mem", std::move(m)}, {"deep", std::move(dp)}}); } });
  J.attributeArray("relret", [&] { for (auto *F : P.order) { auto &o = E.out[F]; if (o->retsFull || o->rets.empty()) continue; std::set<std::string> rel, all; for (auto &m : o->rets) for (auto &[n, w] : m) if (w == 0 && n.find("->") != std::string::npos) rel.insert(n);
      for (auto &n : rel) { bool ok = true; for (auto &m : o->rets) { bool c = m.count(n); for (size_t p = n.rfind("->"); !c && p != std::string::npos; p = p ? n.rfind("->", p - 1) : std::string::npos) { auto it = m.find(n.substr(0, p)); c = it != m.end() && it->second == 1; } if (!c) { ok = false; break; } } if (ok) all.insert(n); }
      if (rel.empty()) continue; Array a, b; for (auto &n : all) a.push_back(n); for (auto &n : rel) b.push_back(n); J.value(Object{{"f", id[F]}, {"all", std::move(a)}, {"some", std::move(b)}}); } });
  J.attributeArray("relpaths", [&] { for (auto *F : P.order) { std::map<std::string, int> m; for (auto &[n, i] : E.out[F]->relPaths) m[n]++; if (m.empty()) continue; Object o; for (auto &[n, k] : m) o[n] = k; J.value(Object{{"f", id[F]}, {"p", std::move(o)}}); } });
  { std::set<std::string> rel; for (auto *F : P.order) rel.insert(E.out[F]->ownRel.begin(), E.out[F]->ownRel.end()); J.attributeArray("ownrel", [&] { for (auto &n : rel) J.value(n); });
    J.attributeArray("ownstores", [&] { for (auto *F : P.order) for (auto &[n, I] : E.out[F]->ownSt) if (I) J.value(Array{id[F], n, lineOf(I)}); }); }
  writeStructural(E, J, id);
  writeEnums(E, J, id);
  writeUninit(E, J, id);
  writeRec(E, J, id);
  writeFail(E, J, id, 8);
  writeGuard(E, J, id);
  J.objectEnd();
}
