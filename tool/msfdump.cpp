// msfdump: emits, as JSON, the resolved program of one translation unit:
// every function whose definition lies under --root (template instantiations
// included, uninstantiated templates excluded) as a typed expression table
// plus its control-flow graph, and the record types declared there.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;
static bool Failed = false;
static bool Full = false;                       // instantiate everything (used to validate the filter)
static const char* Through[] = {"/boost/fusion/"};  // library bodies that call back into the roots

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  ASTContext& C;
  const SourceManager& SM;
  PrintingPolicy PP;
  json::Array Types, Funcs, Records, Files;
  std::map<std::string, int> TypeIdx, FileIdx;
  std::map<const FunctionDecl*, int> FnId;   // canonical decl -> id
  json::Array FnTable;                       // id -> {name, ...}
  std::map<const Decl*, int> DeclId;
  std::set<const Decl*> SeenRec, SeenFn;
  int nTmplBodies = 0;

  explicit Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    SmallString<256> P(F->getName());
    llvm::SmallString<256> R;
    if (!llvm::sys::fs::real_path(P, R)) return std::string(R);
    return std::string(P);
  }
  std::map<FileID, std::pair<bool, std::string>> RootCache;
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = RootCache.find(F);
    if (it == RootCache.end()) {
      std::string f = fileOf(L);
      bool ok = false;
      for (auto& r : Roots) ok = ok || (f.compare(0, r.size(), r) == 0);
      it = RootCache.emplace(F, std::make_pair(ok, f)).first;
    }
    return it->second.first;
  }
  int fileId(SourceLocation L) {
    std::string f;
    if (L.isValid()) {
      FileID F = SM.getFileID(SM.getExpansionLoc(L));
      auto it = RootCache.find(F);
      f = it != RootCache.end() ? it->second.second : fileOf(L);
      if (it == RootCache.end()) RootCache[F] = {false, f}, inRootFix(F, f);
    }
    auto r = FileIdx.emplace(f, (int)Files.size());
    if (r.second) Files.push_back(f);
    return r.first->second;
  }
  void inRootFix(FileID F, const std::string& f) {
    bool ok = false;
    for (auto& r : Roots) ok = ok || (f.compare(0, r.size(), r) == 0);
    RootCache[F].first = ok;
  }
  int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }

  int typeId(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto r = TypeIdx.emplace(s, (int)Types.size());
    if (r.second) Types.push_back(s);
    return r.first->second;
  }
  int declId(const Decl* D) {
    D = D->getCanonicalDecl();
    return DeclId.emplace(D, (int)DeclId.size()).first->second;
  }
  std::string qname(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P = PP;
    // qualified name, template arguments of enclosing classes dropped
    std::vector<std::string> parts;
    const DeclContext* DC = D->getDeclContext();
    std::string last = D->getNameAsString();
    if (isa<CXXConstructorDecl>(D)) last = "(ctor)";
    else if (isa<CXXDestructorDecl>(D)) last = "(dtor)";
    else if (isa<CXXConversionDecl>(D)) last = "(conv)";
    else if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
      if (R->isLambda()) last = "(lambda)";
      else if (last.empty()) last = "(anon)";
    }
    parts.push_back(last);
    while (DC && !DC->isTranslationUnit()) {
      if (auto* N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline() && !N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
      } else if (auto* R = dyn_cast<CXXRecordDecl>(DC)) {
        parts.push_back(R->isLambda() ? "(lambda)" : R->getNameAsString());
      } else if (auto* F = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(F->getNameAsString());
      }
      DC = DC->getParent();
    }
    std::string out;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!out.empty()) out += "::";
      out += *it;
    }
    return out;
  }
  std::string fullName(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  json::Array targs(const TemplateArgumentList* L) {
    json::Array a;
    if (!L) return a;
    for (unsigned i = 0; i < L->size(); ++i) targ(a, L->get(i));
    return a;
  }
  void targ(json::Array& a, const TemplateArgument& A) {
    if (A.getKind() == TemplateArgument::Integral) {
      a.push_back(json::Value((int64_t)A.getAsIntegral().getExtValue()));
    } else if (A.getKind() == TemplateArgument::Type) {
      a.push_back(A.getAsType().getCanonicalType().getAsString(PP));
    } else if (A.getKind() == TemplateArgument::Pack) {
      for (auto& x : A.pack_elements()) targ(a, x);
    } else {
      std::string s;
      llvm::raw_string_ostream os(s);
      A.print(PP, os, true);
      a.push_back(os.str());
    }
  }

  int fnId(const FunctionDecl* F) {
    const FunctionDecl* K = F->getCanonicalDecl();
    auto it = FnId.find(K);
    if (it != FnId.end()) return it->second;
    int id = (int)FnTable.size();
    FnId[K] = id;
    json::Object o;
    o["n"] = qname(F);
    if (auto* TA = F->getTemplateSpecializationArgs()) o["ta"] = targs(TA);
    json::Array ps;
    for (auto* P : F->parameters()) ps.push_back(typeId(P->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = typeId(F->getReturnType());
    if (F->isVariadic()) o["va"] = 1;
    if (F->isNoReturn()) o["nr"] = 1;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      o["clsT"] = typeId(C.getRecordType(M->getParent()));
      if (M->isStatic()) o["st"] = 1;
      if (M->isConst()) o["ct"] = 1;
      if (M->isVirtual()) o["vi"] = 1;
      if (M->isPureVirtual()) o["pv"] = 1;
      if (M->getAccess() == AS_private) o["acc"] = "private";
      else if (M->getAccess() == AS_protected) o["acc"] = "protected";
      else o["acc"] = "public";
      if (isa<CXXConstructorDecl>(M)) o["k"] = "ctor";
      if (isa<CXXDestructorDecl>(M)) o["k"] = "dtor";
      if (F->isImplicit() || F->isDefaulted()) o["imp"] = 1;
    }
    o["repo"] = inRoot(F->getLocation()) ? 1 : 0;
    o["f"] = fileId(F->getLocation());
    o["l"] = line(F->getLocation());
    FnTable.push_back(std::move(o));
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array ov;
      for (auto* O : M->overridden_methods()) ov.push_back(fnId(O));
      if (!ov.empty()) (*FnTable[id].getAsObject())["ov"] = std::move(ov);
    }
    return id;
  }

  // ---------------------------------------------------------------- bodies
  struct Body {
    json::Array Nodes;
    std::map<const Stmt*, int> Id;
  };

  static const Expr* strip(const Expr* E) {
    while (E) {
      if (auto* P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto* P = dyn_cast<OpaqueValueExpr>(E)) { if (!P->getSourceExpr()) return E; E = P->getSourceExpr(); }
      else if (auto* P = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (P->getCastKind() == CK_ConstructorConversion || P->getCastKind() == CK_NoOp || P->getCastKind() == CK_UserDefinedConversion) E = P->getSubExpr();
        else return E;
      } else if (auto* P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
          case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
          case CK_FloatingCast: case CK_IntegralToBoolean: case CK_PointerToBoolean:
          case CK_FloatingToBoolean:
            return E;
          default: E = P->getSubExpr();
        }
      } else return E;
    }
    return E;
  }
  const Stmt* norm(const Stmt* S) {
    if (auto* E = dyn_cast_or_null<Expr>(S)) return strip(E);
    return S;
  }

  std::string argModes(const FunctionDecl* F, unsigned nargs) {
    std::string s;
    for (unsigned i = 0; i < nargs; ++i) {
      if (!F || i >= F->getNumParams()) { s += '?'; continue; }
      QualType T = F->getParamDecl(i)->getType();
      if (T->isRValueReferenceType()) s += 'x';
      else if (T->isReferenceType()) s += T->getPointeeType().isConstQualified() ? 'c' : 'r';
      else if (T->isPointerType()) s += T->getPointeeType().isConstQualified() ? 'q' : 'p';
      else s += 'v';
    }
    return s;
  }

  int node(Body& B, const Stmt* S0) {
    const Stmt* S = norm(S0);
    if (!S) return -1;
    auto it = B.Id.find(S);
    if (it != B.Id.end()) return it->second;
    int id = (int)B.Nodes.size();
    B.Id[S] = id;
    B.Nodes.push_back(nullptr);
    json::Object o;
    json::Array ch;
    auto add = [&](const Stmt* s) { ch.push_back(node(B, s)); };
    o["l"] = line(S->getBeginLoc());
    if (auto* E = dyn_cast<Expr>(S)) {
      o["t"] = typeId(E->getType());
      if (E->isPRValue() || E->isGLValue()) {
        if (!E->isValueDependent() && !E->isTypeDependent() &&
            (E->getType()->isIntegralOrEnumerationType() || E->getType()->isFloatingType()) ) {
          Expr::EvalResult R;
          if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects) {
            if (R.Val.isInt()) o["cv"] = json::Value((int64_t)R.Val.getInt().getExtValue());
            else if (R.Val.isFloat()) {
              double d = R.Val.getFloat().convertToDouble();
              if (std::isfinite(d)) o["cv"] = d;
              else o["cv"] = std::string(std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf");
            }
          }
        }
      }
      if (!E->isGLValue()) o["rv"] = 1;
    }
    std::string k;
    if (auto* E = dyn_cast<DeclRefExpr>(S)) {
      k = "Ref";
      const ValueDecl* D = E->getDecl();
      if (auto* F = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "fn"; o["fn"] = fnId(F); o["n"] = qname(F);
      } else if (auto* V = dyn_cast<VarDecl>(D)) {
        o["d"] = declId(V); o["n"] = V->isLocalVarDeclOrParm() ? V->getNameAsString() : qname(V);
        o["dk"] = isa<ParmVarDecl>(V) ? "param" : V->isStaticLocal() ? "slocal" : V->isLocalVarDecl() ? "local" : "global";
      } else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        o["dk"] = "enum"; o["n"] = qname(EC);
      } else if (auto* BD = dyn_cast<BindingDecl>(D)) {
        o["dk"] = "local"; o["d"] = declId(BD); o["n"] = BD->getNameAsString();
        if (BD->getBinding()) add(BD->getBinding());
      } else {
        o["dk"] = "other"; o["n"] = D->getNameAsString();
        if (isa<FieldDecl>(D)) { o["dk"] = "fieldref"; o["n"] = qname(D); }
      }
    } else if (auto* E = dyn_cast<MemberExpr>(S)) {
      const ValueDecl* D = E->getMemberDecl();
      if (auto* V = dyn_cast<VarDecl>(D)) {
        k = "Ref"; o["dk"] = "global"; o["d"] = declId(V); o["n"] = qname(V);
      } else if (isa<EnumConstantDecl>(D)) {
        k = "Ref"; o["dk"] = "enum"; o["n"] = qname(D);
      } else {
        k = isa<FieldDecl>(D) ? "Mem" : "MemFn";
        o["n"] = qname(D);
        o["f"] = D->getNameAsString();
        if (auto* F = dyn_cast<FunctionDecl>(D)) o["fn"] = fnId(F);
        if (E->isArrow()) o["ar"] = 1;
        add(E->getBase());
      }
    } else if (auto* E = dyn_cast<CallExpr>(S)) {
      k = "Call";
      const FunctionDecl* F = E->getDirectCallee();
      if (F) { o["fn"] = fnId(F); o["n"] = qname(F); }
      unsigned nargs = E->getNumArgs();
      if (auto* MC = dyn_cast<CXXMemberCallExpr>(E)) {
        o["m"] = 1;
        const Expr* Obj = MC->getImplicitObjectArgument();
        add(Obj ? (const Stmt*)Obj : E->getCallee());
        if (auto* ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) o["ar"] = 1;
          if (auto* M = dyn_cast_or_null<CXXMethodDecl>(F))
            if (M->isVirtual() && !ME->hasQualifier()) o["v"] = 1;
        }
        if (auto* M = dyn_cast_or_null<CXXMethodDecl>(F)) if (M->isConst()) o["mc"] = 1;
        o["am"] = argModes(F, nargs);
        for (unsigned i = 0; i < nargs; ++i) add(E->getArg(i));
      } else if (auto* OC = dyn_cast<CXXOperatorCallExpr>(E)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        auto* M = dyn_cast_or_null<CXXMethodDecl>(F);
        if (M && !M->isStatic()) {
          o["m"] = 1;
          if (M->isConst()) o["mc"] = 1;
          o["am"] = argModes(F, nargs ? nargs - 1 : 0);
        } else {
          o["am"] = argModes(F, nargs);
        }
        for (unsigned i = 0; i < nargs; ++i) add(E->getArg(i));
      } else {
        o["am"] = argModes(F, nargs);
        if (!F) add(E->getCallee()), o["ind"] = 1;
        for (unsigned i = 0; i < nargs; ++i) add(E->getArg(i));
      }
    } else if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
      k = "Ctor";
      o["fn"] = fnId(E->getConstructor());
      o["n"] = qname(E->getConstructor());
      if (E->getConstructor()->isCopyOrMoveConstructor()) o["cp"] = 1;
      if (E->isElidable()) o["el"] = 1;
      o["am"] = argModes(E->getConstructor(), E->getNumArgs());
      for (auto* A : E->arguments()) add(A);
    } else if (auto* E = dyn_cast<BinaryOperator>(S)) {
      k = isa<CompoundAssignOperator>(E) ? "CAsg" : E->isAssignmentOp() ? "Asg" : "Bin";
      o["op"] = E->getOpcodeStr();
      add(E->getLHS()); add(E->getRHS());
    } else if (auto* E = dyn_cast<UnaryOperator>(S)) {
      k = "Un";
      std::string op = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) op = "post" + op;
      o["op"] = op;
      add(E->getSubExpr());
    } else if (auto* E = dyn_cast<IntegerLiteral>(S)) { k = "Lit"; (void)E;
    } else if (isa<FloatingLiteral>(S) || isa<CXXBoolLiteralExpr>(S) || isa<CharacterLiteral>(S)) { k = "Lit";
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { k = "Null";
    } else if (auto* E = dyn_cast<clang::StringLiteral>(S)) {
      k = "Str";
      std::string v = E->isOrdinary() || E->isUTF8() ? E->getString().str() : "";
      if (!json::isUTF8(v)) v = json::fixUTF8(v);
      o["s"] = v;
    } else if (isa<CXXThisExpr>(S)) { k = "This";
    } else if (auto* E = dyn_cast<ConditionalOperator>(S)) {
      k = "Cond"; add(E->getCond()); add(E->getTrueExpr()); add(E->getFalseExpr());
    } else if (auto* E = dyn_cast<ArraySubscriptExpr>(S)) {
      k = "Idx"; add(E->getBase()); add(E->getIdx());
    } else if (auto* E = dyn_cast<CastExpr>(S)) {
      k = isa<ImplicitCastExpr>(E) ? "ICast" : "Cast";
      o["ck"] = E->getCastKindName();
      add(E->getSubExpr());
    } else if (auto* E = dyn_cast<LambdaExpr>(S)) {
      k = "Lambda";
      if (auto* M = E->getCallOperator()) o["fn"] = fnId(M);
      for (auto* I : E->capture_inits()) if (I) add(I);
    } else if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      k = "Trait"; (void)E;
    } else if (auto* E = dyn_cast<ReturnStmt>(S)) {
      k = "Ret"; if (E->getRetValue()) add(E->getRetValue());
    } else if (auto* E = dyn_cast<DeclStmt>(S)) {
      k = "Decl";
      for (auto* D : E->decls()) {
        if (auto* V = dyn_cast<VarDecl>(D)) {
          json::Object v;
          int vid = (int)B.Nodes.size();
          B.Nodes.push_back(nullptr);
          v["k"] = "Var"; v["d"] = declId(V); v["n"] = V->getNameAsString();
          v["t"] = typeId(V->getType()); v["l"] = line(V->getLocation());
          if (V->isStaticLocal()) v["static"] = 1;
          if (V->getType()->isReferenceType()) v["ref"] = 1;
          json::Array vc;
          if (V->getInit()) vc.push_back(node(B, V->getInit()));
          v["c"] = std::move(vc);
          B.Nodes[vid] = std::move(v);
          ch.push_back(vid);
        }
      }
    } else if (auto* E = dyn_cast<CXXNewExpr>(S)) {
      k = "New";
      if (E->getInitializer()) add(E->getInitializer());
      o["at"] = typeId(E->getAllocatedType());
    } else if (auto* E = dyn_cast<InitListExpr>(S)) {
      k = "List";
      for (auto* I : E->inits()) add(I);
    } else {
      k = std::string(S->getStmtClassName());
      for (const Stmt* c : S->children()) if (c) add(c);
    }
    o["k"] = k;
    if (!ch.empty()) o["c"] = std::move(ch);
    B.Nodes[id] = std::move(o);
    return id;
  }

  bool VisitFunctionDecl(FunctionDecl* F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
    if (F->isDeleted()) return true;
    if (!F->hasBody()) return true;
    if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
    if (!inRoot(F->getLocation())) return true;
    if (!SeenFn.insert(F).second) return true;
    Stmt* Bd = F->getBody();
    if (!Bd) return true;
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.PruneTriviallyFalseEdges = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, Bd, &C, BO);
    json::Object o;
    o["id"] = fnId(F);
    o["n"] = qname(F);
    o["full"] = fullName(F);
    o["f"] = fileId(F->getLocation());
    o["l"] = line(F->getBeginLoc());
    o["el"] = line(F->getEndLoc());
    if (F->isImplicit() || F->isDefaulted()) o["imp"] = 1;
    json::Array ps;
    for (auto* P : F->parameters()) {
      json::Object p;
      p["d"] = declId(P); p["n"] = P->getNameAsString(); p["t"] = typeId(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    Body B;
    o["body"] = node(B, Bd);
    if (!G) { o["nocfg"] = 1; o["nodes"] = std::move(B.Nodes); Funcs.push_back(std::move(o)); return true; }
    json::Array blocks;
    for (const CFGBlock* K : *G) {
      json::Object b;
      b["id"] = (int)K->getBlockID();
      json::Array el;
      for (const CFGElement& E : *K) {
        if (auto S = E.getAs<CFGStmt>()) {
          const Stmt* st = S->getStmt();
          if (norm(st) != st) continue;  // wrapper; inner is its own element
          el.push_back(node(B, st));
        } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
          json::Object d;
          d["k"] = "Dtor"; d["d"] = declId(D->getVarDecl());
          d["n"] = D->getVarDecl()->getNameAsString();
          d["t"] = typeId(D->getVarDecl()->getType());
          if (auto* DD = D->getDestructorDecl(C)) d["fn"] = fnId(DD);
          d["l"] = line(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : SourceLocation());
          int nid = (int)B.Nodes.size();
          B.Nodes.push_back(std::move(d));
          el.push_back(nid);
        } else if (auto I = E.getAs<CFGInitializer>()) {
          const CXXCtorInitializer* CI = I->getInitializer();
          json::Object d;
          d["k"] = "Init";
          if (auto* FD = CI->getAnyMember()) { d["n"] = qname(FD); d["f"] = FD->getNameAsString(); d["t"] = typeId(FD->getType()); }
          else if (CI->isBaseInitializer()) { d["base"] = 1; d["t"] = typeId(QualType(CI->getBaseClass(), 0)); }
          else { d["deleg"] = 1; }
          if (!CI->isWritten()) d["impl"] = 1;
          d["l"] = line(CI->getSourceLocation());
          json::Array cc;
          int nid = (int)B.Nodes.size();
          B.Nodes.push_back(nullptr);
          if (CI->getInit()) cc.push_back(node(B, CI->getInit()));
          d["c"] = std::move(cc);
          B.Nodes[nid] = std::move(d);
          el.push_back(nid);
        }
      }
      b["e"] = std::move(el);
      if (const Stmt* T = K->getTerminatorStmt()) {
        b["term"] = T->getStmtClassName();
        b["tl"] = line(T->getBeginLoc());
        if (auto* BO2 = dyn_cast<BinaryOperator>(T)) b["term"] = BO2->getOpcodeStr().str();
        if (const Stmt* Cd = K->getTerminatorCondition(false)) b["cond"] = node(B, Cd);
      }
      if (const Stmt* L = K->getLabel()) {
        if (auto* CS = dyn_cast<CaseStmt>(L)) {
          Expr::EvalResult R;
          if (CS->getLHS() && CS->getLHS()->EvaluateAsRValue(R, C) && R.Val.isInt())
            b["case"] = json::Value((int64_t)R.Val.getInt().getExtValue());
        } else if (isa<DefaultStmt>(L)) b["default"] = 1;
      }
      if (K->hasNoReturnElement()) b["noret"] = 1;
      json::Array su;
      for (auto I = K->succ_begin(); I != K->succ_end(); ++I) {
        if (const CFGBlock* R = I->getReachableBlock()) su.push_back((int)R->getBlockID());
        else su.push_back(nullptr);
      }
      b["s"] = std::move(su);
      blocks.push_back(std::move(b));
    }
    o["entry"] = (int)G->getEntry().getBlockID();
    o["exit"] = (int)G->getExit().getBlockID();
    o["blocks"] = std::move(blocks);
    o["nodes"] = std::move(B.Nodes);
    Funcs.push_back(std::move(o));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!inRoot(R->getLocation()) || R->isInvalidDecl()) return true;
    if (!SeenRec.insert(R).second) return true;
    json::Object o;
    o["n"] = qname(R);
    o["t"] = typeId(C.getRecordType(R));
    o["f"] = fileId(R->getLocation());
    o["l"] = line(R->getLocation());
    if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["ta"] = targs(&S->getTemplateArgs());
    json::Array bs;
    for (auto& B : R->bases()) bs.push_back(typeId(B.getType()));
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto* F : R->fields()) {
      json::Object f;
      f["n"] = F->getNameAsString();
      f["t"] = typeId(F->getType());
      f["l"] = line(F->getLocation());
      if (F->hasInClassInitializer()) f["init"] = 1;
      f["acc"] = F->getAccess() == AS_private ? "private" : F->getAccess() == AS_protected ? "protected" : "public";
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto* M : R->methods()) ms.push_back(fnId(M));
    o["methods"] = std::move(ms);
    json::Object ec;
    for (auto* D : R->decls()) {
      if (auto* En = dyn_cast<EnumDecl>(D))
        for (auto* K : En->enumerators()) ec[K->getNameAsString()] = json::Value((int64_t)K->getInitVal().getExtValue());
      if (auto* V = dyn_cast<VarDecl>(D))
        if (V->isStaticDataMember() && V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent() &&
            V->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified()) {
          if (APValue* A = V->evaluateValue()) if (A->isInt()) ec[V->getNameAsString()] = json::Value((int64_t)A->getInt().getExtValue());
        }
    }
    if (!ec.empty()) o["consts"] = std::move(ec);
    Records.push_back(std::move(o));
    return true;
  }

  // the numbers written in an initialiser, in order of appearance
  static void literals(const Stmt* S, double sign, json::Array& out) {
    if (!S) return;
    if (auto* F = dyn_cast<FloatingLiteral>(S)) { out.push_back(sign * F->getValueAsApproximateDouble()); return; }
    if (auto* I = dyn_cast<IntegerLiteral>(S)) { out.push_back(sign * (double)I->getValue().getSExtValue()); return; }
    if (auto* U = dyn_cast<UnaryOperator>(S)) if (U->getOpcode() == UO_Minus) sign = -sign;
    if (auto* O = dyn_cast<CXXOperatorCallExpr>(S)) { for (const Expr* a : O->arguments()) literals(a, sign, out); return; }
    for (const Stmt* c : S->children()) literals(c, sign, out);
  }
  bool VisitVarDecl(VarDecl* V) {
    if (V->isLocalVarDeclOrParm() || V->isStaticDataMember() || V->getDeclContext()->isDependentContext()) return true;
    if (!inRoot(V->getLocation())) return true;
    json::Object o;
    o["d"] = declId(V); o["n"] = qname(V); o["t"] = typeId(V->getType());
    o["f"] = fileId(V->getLocation()); o["l"] = line(V->getLocation());
    if (const Expr* I = V->getInit()) {
      json::Array nums;
      literals(I, 1.0, nums);
      if (!nums.empty()) o["nums"] = std::move(nums);
    }
    Globals.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!inRoot(E->getLocation()) || E->isDependentContext() || !E->isThisDeclarationADefinition()) return true;
    json::Object o;
    o["n"] = qname(E);
    json::Array a;
    for (auto* K : E->enumerators()) a.push_back(json::Array{K->getNameAsString(), (int64_t)K->getInitVal().getExtValue()});
    o["e"] = std::move(a);
    o["f"] = fileId(E->getLocation());
    Enums.push_back(std::move(o));
    return true;
  }
  json::Array Globals, Enums;

  void finish() {
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    if (EC) { llvm::errs() << "msfdump: cannot write " << OutFile << "\n"; Failed = true; return; }
    json::Object o;
    o["types"] = std::move(Types);
    o["files"] = std::move(Files);
    o["fntable"] = std::move(FnTable);
    o["functions"] = std::move(Funcs);
    o["records"] = std::move(Records);
    o["globals"] = std::move(Globals);
    o["enums"] = std::move(Enums);
    os << json::Value(std::move(o));
  }
};

// Instantiates only the templates whose pattern lies under a root: bodies of
// library templates are never needed, and are most of the cost of the parse.
class Consumer : public SemaConsumer {
 public:
  CompilerInstance& CI;
  Sema* S = nullptr;
  explicit Consumer(CompilerInstance& CI) : CI(CI) {}
  void InitializeSema(Sema& s) override { S = &s; }
  void ForgetSema() override { S = nullptr; }
  bool isRepo(const FunctionDecl* F) {
    const SourceManager& SM = CI.getSourceManager();
    SourceLocation L = SM.getExpansionLoc(F->getLocation());
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return false;
    llvm::SmallString<256> R;
    if (llvm::sys::fs::real_path(FE->getName(), R)) return false;
    for (auto& r : Roots) if (StringRef(R).starts_with(r)) return true;
    for (auto* t : Through) if (StringRef(R).contains(t)) return true;
    return false;
  }
  bool HandleTopLevelDecl(DeclGroupRef G) override {
    for (Decl* D : G)
      if (auto* V = dyn_cast<VarDecl>(D))
        if (V->getName() == "msfdump_sentinel" && S && !Full) drain();
    return true;
  }
  void drain() {
    std::set<Decl*> done;
    for (;;) {
      // late-checked uses (vtables) may add work
      std::deque<Sema::PendingImplicitInstantiation> work;
      work.swap(S->PendingInstantiations);
      if (work.empty()) {
        if (vt++ < 3) { S->DefineUsedVTables(); continue; }
        break;
      }
      for (auto& W : work) {
        auto* F = dyn_cast<FunctionDecl>(W.first);
        if (!F) continue;
        if (!isRepo(F)) continue;
        if (!done.insert(F->getCanonicalDecl()).second && F->isDefined()) continue;
        S->InstantiateFunctionDefinition(W.second, F, false, true, true);
      }
    }
  }
  int vt = 0;
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { Failed = true; return; }
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    D.finish();
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
}  // namespace

int main(int argc, const char** argv) {
  // msfdump --out F --root DIR [--root DIR...] SOURCE -- flags...
  std::string src;
  std::vector<std::string> flags;
  int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { ++i; break; }
    if (a == "--out") OutFile = argv[++i];
    else if (a == "--full") Full = true;
    else if (a == "--root") Roots.push_back(argv[++i]);
    else src = a;
  }
  for (; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  int rc = T.run(tooling::newFrontendActionFactory<Action>().get());
  if (rc || Failed) return 2;
  return 0;
}
