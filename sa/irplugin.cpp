// Clang plugin: lowers every declaration of the analysed project to a compact
// JSON IR (one JSON object per line on the file given by -plugin-arg out=...).
// Integral constant expressions are folded here, types are canonical, callees
// are resolved to mangled names.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <set>

using namespace clang;
namespace json = llvm::json;

namespace {

class Lower {
 public:
  Lower(ASTContext &C, std::string Root, std::string Root2,
        llvm::raw_ostream &OS)
      : C(C), SM(C.getSourceManager()), Root(Root), Root2(Root2), OS(OS),
        MC(ItaniumMangleContext::create(C, C.getDiagnostics())) {}

  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    StringRef F = SM.getFilename(SM.getExpansionLoc(L));
    return F.starts_with(Root) || (!Root2.empty() && F.starts_with(Root2));
  }
  std::string fileOf(SourceLocation L) {
    StringRef F = SM.getFilename(SM.getExpansionLoc(L));
    if (F.starts_with(Root)) F = F.drop_front(Root.size());
    return F.str();
  }
  int lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }

  std::string mangle(const FunctionDecl *FD) {
    if (!FD) return "";
    FD = FD->getCanonicalDecl();
    if (isa<CXXDeductionGuideDecl>(FD)) return FD->getQualifiedNameAsString();
    std::string S;
    llvm::raw_string_ostream O(S);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD))
      MC->mangleName(GlobalDecl(CD, Ctor_Complete), O);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(FD))
      MC->mangleName(GlobalDecl(DD, Dtor_Complete), O);
    else if (MC->shouldMangleDeclName(FD))
      MC->mangleName(GlobalDecl(FD), O);
    else
      O << FD->getNameAsString();
    O.flush();
    if (!FD->isExternallyVisible() && inRepo(FD->getLocation()))
      S += "@" + fileOf(FD->getLocation());
    return S;
  }

  // ---- types ----
  std::string ty(QualType Q) {
    if (Q.isNull()) return "?";
    QualType K = Q.getCanonicalType();
    const Type *T = K.getTypePtr();
    if (auto *R = dyn_cast<ReferenceType>(T))
      return std::string("R<") + ty(R->getPointeeType()) + ">";
    std::string Cst = K.isConstQualified() ? "const " : "";
    if (K.isVolatileQualified()) Cst = "volatile " + Cst;
    if (auto *P = dyn_cast<PointerType>(T)) {
      if (P->getPointeeType()->isFunctionType()) return "fnptr";
      return Cst + "P<" + ty(P->getPointeeType()) + ">";
    }
    if (auto *A = dyn_cast<ConstantArrayType>(T))
      return "A<" + std::to_string(A->getSize().getZExtValue()) + "," +
             ty(A->getElementType()) + ">";
    if (isa<VariableArrayType>(T)) {
      return "A<0," + ty(cast<VariableArrayType>(T)->getElementType()) + ">";
    }
    if (auto *A = dyn_cast<IncompleteArrayType>(T))
      return "A<0," + ty(A->getElementType()) + ">";
    if (auto *E = dyn_cast<EnumType>(T)) {
      QualType I = E->getDecl()->getIntegerType();
      return Cst + "E<" + (I.isNull() ? std::string("i32") : ty(I)) + "," +
             E->getDecl()->getQualifiedNameAsString() + ">";
    }
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind() == BuiltinType::Bool) return Cst + "bool";
      if (B->isInteger())
        return Cst + (B->isSignedInteger() ? "i" : "u") +
               std::to_string(C.getTypeSize(K));
      if (B->isFloatingPoint())
        return Cst + "f" + std::to_string(C.getTypeSize(K));
      if (B->isVoidType()) return Cst + "void";
      if (B->getKind() == BuiltinType::NullPtr) return "nullptr_t";
      return "?builtin";
    }
    if (auto *R = dyn_cast<RecordType>(T)) {
      const RecordDecl *RD = R->getDecl();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        std::string N = S->getQualifiedNameAsString();
        auto arg = [&](unsigned i) -> std::string {
          if (i >= S->getTemplateArgs().size()) return "?";
          const TemplateArgument &A = S->getTemplateArgs()[i];
          if (A.getKind() == TemplateArgument::Type) return ty(A.getAsType());
          if (A.getKind() == TemplateArgument::Integral) {
            SmallString<16> Sx;
            A.getAsIntegral().toString(Sx, 10);
            return std::string(Sx);
          }
          return "?";
        };
        std::string Last = N.substr(N.rfind("::") == std::string::npos
                                        ? 0
                                        : N.rfind("::") + 2);
        if (S->isInStdNamespace() || N.rfind("std::", 0) == 0 ||
            N.rfind("__gnu_cxx::", 0) == 0) {
          if (Last == "vector") return Cst + "V<" + arg(0) + ">";
          if (Last == "unique_ptr") return Cst + "U<" + arg(0) + ">";
          if (Last == "shared_ptr" || Last == "__shared_ptr" ||
              Last == "__shared_ptr_access")
            return Cst + "S<" + arg(0) + ">";
          if (Last == "array")
            return Cst + "A<" + arg(1) + "," + arg(0) + ">";
          if (Last == "map" || Last == "unordered_map")
            return Cst + "M<" + arg(0) + "," + arg(1) + ">";
          if (Last == "basic_string") return Cst + "str";
          if (Last == "initializer_list") return Cst + "I<" + arg(0) + ">";
          std::string A;
          for (unsigned i = 0; i < S->getTemplateArgs().size() && i < 2; i++)
            A += (i ? "," : "") + arg(i);
          return Cst + "std:" + Last + "<" + A + ">";
        }
        std::string Nm;
        llvm::raw_string_ostream O(Nm);
        S->getNameForDiagnostic(O, C.getPrintingPolicy(), true);
        return Cst + "T:" + Nm;
      }
      if (RD->isLambda())
        return Cst + "lambda";
      return Cst + "T:" + RD->getQualifiedNameAsString();
    }
    if (T->isFunctionType()) return "fn";
    return Cst + "?" + K.getAsString();
  }

  // ---- declarations ----
  json::Value idOf(const Decl *D) {
    auto It = Ids.find(D);
    if (It == Ids.end()) It = Ids.insert({D, (int)Ids.size() + 1}).first;
    return It->second;
  }

  void need(const FunctionDecl *FD) {
    if (!FD) return;
    const FunctionDecl *Def = nullptr;
    if (!FD->hasBody(Def) || !Def) return;
    if (Def->isDependentContext()) return;
    if (!inRepo(Def->getLocation())) return;
    if (Seen.insert(Def->getCanonicalDecl()).second) Work.push_back(Def);
  }

  void run(TranslationUnitDecl *TU) {
    walk(TU);
    while (!Work.empty()) {
      const FunctionDecl *FD = Work.front();
      Work.pop_front();
      emitFunction(FD);
    }
  }

  void walk(DeclContext *DC) {
    for (Decl *D : DC->decls()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(D)) {
        walk(NS);
        continue;
      }
      if (auto *LS = dyn_cast<LinkageSpecDecl>(D)) {
        walk(LS);
        continue;
      }
      if (!inRepo(D->getLocation())) continue;
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        if (FD->isDependentContext()) continue;
        emitProto(FD);
        need(FD);
      } else if (auto *RD = dyn_cast<CXXRecordDecl>(D)) {
        walkRecord(RD);
      } else if (auto *ED = dyn_cast<EnumDecl>(D)) {
        emitEnum(ED);
      } else if (auto *VD = dyn_cast<VarDecl>(D)) {
        emitVar(VD);
      } else if (auto *CT = dyn_cast<ClassTemplateDecl>(D)) {
        for (auto *S : CT->specializations()) walkRecord(S);
      }
    }
  }

  void walkRecord(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext()) return;
    if (!RD->isLambda()) emitRecord(RD);
    for (Decl *D : RD->decls()) {
      if (auto *S = dyn_cast<CXXRecordDecl>(D)) {
        if (!S->isInjectedClassName()) walkRecord(S);
      } else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        if (!FD->isImplicit()) emitProto(FD);
        need(FD);
      } else if (auto *ED = dyn_cast<EnumDecl>(D)) {
        emitEnum(ED);
      } else if (auto *VD = dyn_cast<VarDecl>(D)) {
        emitVar(VD);
      }
    }
  }

  void out(json::Object O) { OS << json::Value(std::move(O)) << "\n"; }

  void emitProto(const FunctionDecl *FD) {
    json::Array Ps;
    for (auto *P : FD->parameters())
      Ps.push_back(json::Array{P->getNameAsString(), ty(P->getType())});
    json::Object O{{"k", "proto"},
                   {"m", mangle(FD)},
                   {"q", FD->getQualifiedNameAsString()},
                   {"ret", ty(FD->getReturnType())},
                   {"ps", std::move(Ps)},
                   {"file", fileOf(FD->getLocation())},
                   {"line", lineOf(FD->getLocation())}};
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["const"] = MD->isConst();
      O["static"] = MD->isStatic();
      O["virtual"] = MD->isVirtual();
      O["access"] = (int)MD->getAccess();
    }
    out(std::move(O));
  }

  void emitEnum(const EnumDecl *ED) {
    if (!ED->isCompleteDefinition()) return;
    json::Array Es;
    for (auto *E : ED->enumerators()) {
      Es.push_back(json::Array{E->getNameAsString(),
                               E->getInitVal().getExtValue()});
    }
    out(json::Object{{"k", "enum"},
                     {"n", ED->getQualifiedNameAsString()},
                     {"ty", ED->getIntegerType().isNull()
                                ? std::string("i32")
                                : ty(ED->getIntegerType())},
                     {"file", fileOf(ED->getLocation())},
                     {"line", lineOf(ED->getLocation())},
                     {"vals", std::move(Es)}});
  }

  void emitVar(const VarDecl *VD) {
    json::Object O{{"k", "var"},
                   {"n", VD->getQualifiedNameAsString()},
                   {"id", idOf(VD->getCanonicalDecl())},
                   {"ty", ty(VD->getType())},
                   {"constexpr", VD->isConstexpr()},
                   {"const", VD->getType().isConstQualified() ||
                                 (VD->getType()->isArrayType() &&
                                  C.getBaseElementType(VD->getType())
                                      .isConstQualified())},
                   {"storage", (int)VD->getStorageDuration()},
                   {"def", VD->isThisDeclarationADefinition() !=
                               VarDecl::DeclarationOnly},
                   {"file", fileOf(VD->getLocation())},
                   {"line", lineOf(VD->getLocation())}};
    if (const Expr *I = VD->getAnyInitializer()) {
      if (!I->isValueDependent()) O["init"] = ex(I);
    }
    out(std::move(O));
  }

  void emitRecord(const CXXRecordDecl *RD) {
    json::Array Fs, Bs, Ms;
    for (auto *F : RD->fields()) {
      json::Object FO{{"n", F->getNameAsString()},
                      {"ty", ty(F->getType())},
                      {"access", (int)F->getAccess()},
                      {"line", lineOf(F->getLocation())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["init"] = ex(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    for (auto &B : RD->bases()) Bs.push_back(ty(B.getType()));
    for (auto *M : RD->methods()) {
      if (M->isImplicit()) continue;
      json::Array Ov;
      for (auto *OM : M->overridden_methods()) Ov.push_back(mangle(OM));
      Ms.push_back(json::Object{{"m", mangle(M)},
                                {"n", M->getNameAsString()},
                                {"virtual", M->isVirtual()},
                                {"pure", M->isPureVirtual()},
                                {"over", std::move(Ov)}});
    }
    bool UserCtor = false;
    for (auto *Ct : RD->ctors())
      if (Ct->isDefaultConstructor() && Ct->isUserProvided()) UserCtor = true;
    std::string Nm;
    llvm::raw_string_ostream O(Nm);
    RD->getNameForDiagnostic(O, C.getPrintingPolicy(), true);
    out(json::Object{{"k", "record"},
                     {"n", Nm},
                     {"fields", std::move(Fs)},
                     {"bases", std::move(Bs)},
                     {"methods", std::move(Ms)},
                     {"userctor", UserCtor},
                     {"file", fileOf(RD->getLocation())},
                     {"line", lineOf(RD->getLocation())}});
  }

  void emitFunction(const FunctionDecl *FD) {
    CurFn = FD;
    json::Array Ps;
    for (auto *P : FD->parameters())
      Ps.push_back(
          json::Array{P->getNameAsString(), idOf(P), ty(P->getType())});
    json::Object O{{"k", "fn"},
                   {"m", mangle(FD)},
                   {"q", FD->getQualifiedNameAsString()},
                   {"ret", ty(FD->getReturnType())},
                   {"ps", std::move(Ps)},
                   {"file", fileOf(FD->getLocation())},
                   {"line", lineOf(FD->getLocation())},
                   {"end", lineOf(FD->getEndLoc())},
                   {"internal", !FD->isExternallyVisible()}};
    const auto *FPT = FD->getType()->getAs<FunctionProtoType>();
    O["noexcept"] = FPT && isUnresolvedExceptionSpec(FPT->getExceptionSpecType())
                        ? false
                        : (FPT && FPT->isNothrow());
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = ty(C.getRecordType(MD->getParent()));
      O["static"] = MD->isStatic();
      O["const"] = MD->isConst();
      O["virtual"] = MD->isVirtual();
      O["access"] = (int)MD->getAccess();
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      json::Array Is;
      for (auto *I : CD->inits()) {
        json::Object IO;
        if (I->isMemberInitializer() && I->getMember())
          IO["field"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer())
          IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else
          IO["deleg"] = true;
        IO["written"] = I->isWritten();
        if (I->getInit()) IO["e"] = ex(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
      O["ctor"] = true;
    }
    if (isa<CXXDestructorDecl>(FD)) O["dtor"] = true;
    O["body"] = st(FD->getBody());
    CurFn = nullptr;
    out(std::move(O));
  }

  // ---- statements ----
  json::Value st(const Stmt *S) {
    if (!S) return nullptr;
    int L = lineOf(S->getBeginLoc());
    if (auto *CS = dyn_cast<CompoundStmt>(S)) {
      json::Array A{"blk", L};
      for (auto *X : CS->body()) A.push_back(st(X));
      return A;
    }
    if (auto *DS = dyn_cast<DeclStmt>(S)) {
      json::Array A{"decl", L};
      for (auto *D : DS->decls()) {
        if (auto *VD = dyn_cast<VarDecl>(D)) {
          json::Array V{idOf(VD), VD->getNameAsString(), ty(VD->getType()),
                        VD->getInit() ? ex(VD->getInit()) : json::Value(nullptr),
                        VD->isStaticLocal(), VD->isConstexpr(),
                        VD->getInitStyle() == VarDecl::CInit ? 0 : 1};
          A.push_back(std::move(V));
        }
      }
      return A;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      json::Array Pre;
      if (I->getInit()) Pre.push_back(st(I->getInit()));
      if (I->getConditionVariableDeclStmt())
        Pre.push_back(st(I->getConditionVariableDeclStmt()));
      json::Value N = json::Array{"if", L, ex(I->getCond()), st(I->getThen()),
                                  st(I->getElse())};
      if (Pre.empty()) return N;
      json::Array A{"blk", L};
      for (auto &P : Pre) A.push_back(std::move(P));
      A.push_back(std::move(N));
      return A;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      return json::Array{"for", L, st(F->getInit()),
                         F->getCond() ? ex(F->getCond()) : json::Value(nullptr),
                         F->getInc() ? ex(F->getInc()) : json::Value(nullptr),
                         st(F->getBody())};
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      if (W->getConditionVariableDeclStmt())
        return json::Array{"unkst", L, "WhileStmtWithDecl"};
      return json::Array{"for", L, nullptr, ex(W->getCond()), nullptr,
                         st(W->getBody())};
    }
    if (auto *D = dyn_cast<DoStmt>(S))
      return json::Array{"do", L, st(D->getBody()), ex(D->getCond())};
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      auto *VD = R->getLoopVariable();
      return json::Array{"forrange", L,
                         json::Array{idOf(VD), VD->getNameAsString(),
                                     ty(VD->getType())},
                         ex(R->getRangeInit()), st(R->getBody())};
    }
    if (auto *R = dyn_cast<ReturnStmt>(S))
      return json::Array{"ret", L,
                         R->getRetValue() ? ex(R->getRetValue())
                                          : json::Value(nullptr)};
    if (isa<BreakStmt>(S)) return json::Array{"break", L};
    if (isa<ContinueStmt>(S)) return json::Array{"continue", L};
    if (isa<NullStmt>(S)) return json::Array{"blk", L};
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      // [switch, line, cond, [[labels...]|"default", stmts...]...]
      json::Array Pre;
      if (W->getInit()) Pre.push_back(st(W->getInit()));
      if (W->getConditionVariableDeclStmt())
        Pre.push_back(st(W->getConditionVariableDeclStmt()));
      json::Array Secs;
      json::Array Cur;
      json::Array Labels;
      bool Have = false;
      auto flush = [&]() {
        if (Have)
          Secs.push_back(json::Array{json::Value(std::move(Labels)),
                                     json::Value(std::move(Cur))});
        Labels = json::Array();
        Cur = json::Array();
      };
      if (auto *B = dyn_cast_or_null<CompoundStmt>(W->getBody())) {
        for (const Stmt *X : B->body()) {
          bool First = true;
          while (auto *SC = dyn_cast<SwitchCase>(X)) {
            if (First && (!Cur.empty() || !Have)) flush();
            First = false;
            Have = true;
            if (auto *CC = dyn_cast<CaseStmt>(SC)) {
              int64_t Lo = CC->getLHS()->EvaluateKnownConstInt(C).getExtValue();
              int64_t Hi = Lo;
              if (CC->getRHS())
                Hi = CC->getRHS()->EvaluateKnownConstInt(C).getExtValue();
              Labels.push_back(json::Array{Lo, Hi});
            } else {
              Labels.push_back("default");
            }
            X = SC->getSubStmt();
          }
          if (auto *NA = dyn_cast<AttributedStmt>(X)) X = NA->getSubStmt();
          Cur.push_back(st(X));
        }
        flush();
      } else {
        return json::Array{"unkst", L, "SwitchBody"};
      }
      json::Value N =
          json::Array{"switch", L, ex(W->getCond()), std::move(Secs)};
      if (Pre.empty()) return N;
      json::Array A{"blk", L};
      for (auto &P : Pre) A.push_back(std::move(P));
      A.push_back(std::move(N));
      return A;
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return st(A->getSubStmt());
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      return json::Array{"unkst", L, "CXXTryStmt"};
    }
    if (auto *E = dyn_cast<Expr>(S)) return json::Array{"expr", L, ex(E)};
    if (isa<GCCAsmStmt>(S)) {
      auto *GA = cast<GCCAsmStmt>(S);
      if (GA->getNumOutputs() == 0 && GA->getNumInputs() == 0)
        return json::Array{"blk", L};
    }
    return json::Array{"unkst", L, S->getStmtClassName()};
  }

  // ---- expressions ----
  json::Value ex(const Expr *E) {
    if (!E) return nullptr;
    // strip
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      break;
    }
    int L = lineOf(E->getExprLoc());
    std::string T = ty(E->getType());
    // constant folding of integral rvalues
    if (E->isPRValue() && E->getType()->isIntegralOrEnumerationType() &&
        !E->isValueDependent()) {
      Expr::EvalResult R;
      if (!E->HasSideEffects(C) && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects, true)) {
        llvm::APSInt V = R.Val.getInt();
        SmallString<24> Sx;
        V.toString(Sx, 10);
        if (V.isSignedIntN(63) || (V.isUnsigned() && V.getActiveBits() < 63)) 
          return json::Array{"int", L, T, V.getExtValue()};
        return json::Array{"int", L, T, std::string(Sx)};
      }
    }
    if (auto *X = dyn_cast<ConstantExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) return castx(X, L, T);
    if (auto *X = dyn_cast<CastExpr>(E)) return castx(X, L, T);
    if (auto *X = dyn_cast<IntegerLiteral>(E))
      return json::Array{"int", L, T, (int64_t)X->getValue().getZExtValue()};
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E))
      return json::Array{"int", L, T, X->getValue() ? 1 : 0};
    if (auto *X = dyn_cast<CharacterLiteral>(E))
      return json::Array{"int", L, T, (int64_t)X->getValue()};
    if (auto *X = dyn_cast<FloatingLiteral>(E))
      return json::Array{"float", L, T, X->getValueAsApproximateDouble()};
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      std::string S;
      if (X->getCharByteWidth() == 1) S = X->getString().str();
      if (!json::isUTF8(S)) S = json::fixUTF8(S);
      return json::Array{"strlit", L, T, S};
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E))
      return json::Array{"strlit", L, T, "__func__"};
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return json::Array{"null", L, T};
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
      return json::Array{"zero", L, T};
    if (isa<CXXThisExpr>(E)) return json::Array{"this", L, T};
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        need(FD);
        return json::Array{"fnref", L, T, mangle(FD),
                           FD->getQualifiedNameAsString()};
      }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->hasGlobalStorage()) {
          return json::Array{"gref", L, T, VD->getQualifiedNameAsString(),
                             VD->isStaticLocal()};
        }
        return json::Array{"ref", L, T, idOf(VD), VD->getNameAsString()};
      }
      if (auto *BD = dyn_cast<BindingDecl>(D))
        return json::Array{"unk", L, T, "BindingDecl"};
      return json::Array{"unk", L, T, "DeclRef"};
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *VD = dyn_cast<VarDecl>(D))
        return json::Array{"gref", L, T, VD->getQualifiedNameAsString(), false};
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        need(FD);
        return json::Array{"fnref", L, T, mangle(FD),
                           FD->getQualifiedNameAsString()};
      }
      return json::Array{"mem", L, T, ex(X->getBase()), D->getNameAsString(),
                         X->isArrow()};
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      if (X->getOpcode() == UO_Extension || X->getOpcode() == UO_Plus)
        return ex(X->getSubExpr());
      return json::Array{"un", L, T,
                         std::string(X->isPostfix() ? "post" : "") +
                             UnaryOperator::getOpcodeStr(X->getOpcode()).str(),
                         ex(X->getSubExpr())};
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      std::string Op = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      Op.pop_back();
      return json::Array{"asg", L, T, Op, ex(X->getLHS()), ex(X->getRHS()),
                         ty(X->getComputationResultType())};
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->getOpcode() == BO_Assign)
        return json::Array{"asg", L, T, "", ex(X->getLHS()), ex(X->getRHS()), T};
      return json::Array{"bin", L, T,
                         BinaryOperator::getOpcodeStr(X->getOpcode()).str(),
                         ex(X->getLHS()), ex(X->getRHS())};
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E))
      return json::Array{"cond", L, T, ex(X->getCond()), ex(X->getTrueExpr()),
                         ex(X->getFalseExpr())};
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
      return json::Array{"idx", L, T, ex(X->getBase()), ex(X->getIdx())};
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *MD = X->getMethodDecl();
      if (!MD) return json::Array{"unk", L, T, "MemberPtrCall"};
      need(MD);
      bool Arrow = false;
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
        Arrow = ME->isArrow();
      bool Qual = false;
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
        Qual = ME->hasQualifier();
      json::Array As;
      for (auto *A : X->arguments()) As.push_back(ex(A));
      return json::Array{"mcall", L, T, mangle(MD),
                         MD->getQualifiedNameAsString(),
                         ex(X->getImplicitObjectArgument()), Arrow,
                         std::move(As), MD->isVirtual() && !Qual,
                         MD->isConst()};
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *FD = X->getDirectCallee();
      need(FD);
      json::Array As;
      for (auto *A : X->arguments()) As.push_back(ex(A));
      return json::Array{"opcall", L, T,
                         std::string(getOperatorSpelling(X->getOperator())),
                         FD ? mangle(FD) : "",
                         FD ? FD->getQualifiedNameAsString() : "",
                         std::move(As),
                         ty(X->getNumArgs() ? X->getArg(0)->getType()
                                            : QualType())};
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *FD = X->getDirectCallee();
      json::Array As;
      for (auto *A : X->arguments()) As.push_back(ex(A));
      if (!FD)
        return json::Array{"icall", L, T, ex(X->getCallee()), std::move(As)};
      need(FD);
      return json::Array{"call", L, T, mangle(FD),
                         FD->getQualifiedNameAsString(), std::move(As)};
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *CD = X->getConstructor();
      need(CD);
      json::Array As;
      for (auto *A : X->arguments()) As.push_back(ex(A));
      std::string K = CD->isCopyConstructor()   ? "copy"
                      : CD->isMoveConstructor() ? "move"
                      : CD->isDefaultConstructor() ? "default" : "conv";
      return json::Array{"ctor", L, T, mangle(CD), K, std::move(As),
                         CD->isUserProvided(),
                         X->requiresZeroInitialization()};
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isTransparent() && X->getNumInits() == 1) return ex(X->getInit(0));
      json::Array As;
      for (auto *A : X->inits()) As.push_back(ex(A));
      return json::Array{"ilist", L, T, std::move(As)};
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Array Ps, Cs;
      const CXXMethodDecl *MD = X->getCallOperator();
      for (auto *P : MD->parameters())
        Ps.push_back(json::Array{P->getNameAsString(), idOf(P), ty(P->getType())});
      auto It = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        if (Cp.capturesVariable())
          Cs.push_back(json::Array{idOf(Cp.getCapturedVar()),
                                   Cp.getCaptureKind() == LCK_ByRef,
                                   Cp.getCapturedVar()->getNameAsString()});
        else if (Cp.capturesThis())
          Cs.push_back(json::Array{"this", true, "this"});
        ++It;
      }
      if (X->isGenericLambda()) {
        // one body per set of argument types it is called with
        json::Array All, Specs;
        auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator();
        if (!FT) return json::Array{"unk", L, T, "GenericLambda"};
        for (auto *SD : FT->specializations()) {
          auto *SM = dyn_cast<CXXMethodDecl>(SD);
          if (!SM || !SM->getBody() || SM->isDependentContext()) continue;
          json::Array SPs;
          for (auto *P : SM->parameters()) {
            SPs.push_back(json::Array{P->getNameAsString(), idOf(P), ty(P->getType())});
            All.push_back(json::Array{P->getNameAsString(), idOf(P), ty(P->getType())});
          }
          Specs.push_back(json::Array{mangle(SM), std::move(SPs), st(SM->getBody()),
                                      ty(SM->getReturnType())});
        }
        return json::Array{"lambda", L, T, std::move(All), nullptr,
                           std::move(Cs), mangle(MD), "", std::move(Specs)};
      }
      if (MD->isDependentContext())
        return json::Array{"unk", L, T, "GenericLambda"};
      return json::Array{"lambda", L, T, std::move(Ps), st(X->getBody()),
                         std::move(Cs), mangle(MD), ty(MD->getReturnType())};
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      return json::Array{"new", L, T, ty(X->getAllocatedType()),
                         X->getInitializer() ? ex(X->getInitializer()) : json::Value(nullptr)};
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E))
      return json::Array{"throw", L, T};
    if (auto *X = dyn_cast<CXXDeleteExpr>(E))
      return json::Array{"delete", L, T, ex(X->getArgument())};
    if (auto *X = dyn_cast<StmtExpr>(E))
      return json::Array{"stmtexpr", L, T, st(X->getSubStmt())};
    if (isa<SourceLocExpr>(E)) return json::Array{"int", L, T, 0};
    return json::Array{"unk", L, T, E->getStmtClassName()};
  }

  json::Value castx(const CastExpr *X, int L, std::string T) {
    switch (X->getCastKind()) {
      case CK_LValueToRValue:
        return json::Array{"ld", L, T, ex(X->getSubExpr())};
      case CK_NoOp:
      case CK_FunctionToPointerDecay:
      case CK_BuiltinFnToFnPtr:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
        return ex(X->getSubExpr());
      case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase:
      case CK_BaseToDerived:
        return json::Array{"cast", L, T, "base", ex(X->getSubExpr())};
      case CK_ArrayToPointerDecay:
        return json::Array{"cast", L, T, "decay", ex(X->getSubExpr())};
      case CK_ToVoid:
        return json::Array{"cast", L, T, "void", ex(X->getSubExpr())};
      case CK_NullToPointer:
        return json::Array{"null", L, T};
      default:
        return json::Array{"cast", L, T, X->getCastKindName(),
                           ex(X->getSubExpr())};
    }
  }

 private:
  ASTContext &C;
  SourceManager &SM;
  std::string Root, Root2;
  llvm::raw_ostream &OS;
  std::unique_ptr<ItaniumMangleContext> MC;
  llvm::DenseMap<const Decl *, int> Ids;
  std::set<const FunctionDecl *> Seen;
  std::deque<const FunctionDecl *> Work;
  const FunctionDecl *CurFn = nullptr;
};

class Consumer : public ASTConsumer {
 public:
  Consumer(std::string R, std::string R2, std::string O)
      : Root(R), Root2(R2), Out(O) {}
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    Lower(C, Root, Root2, OS).run(C.getTranslationUnitDecl());
  }
  std::string Root, Root2, Out;
};

class Action : public PluginASTAction {
 protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>(Root, Root2, Out);
  }
  bool ParseArgs(const CompilerInstance &,
                 const std::vector<std::string> &A) override {
    for (auto &S : A) {
      if (S.rfind("root=", 0) == 0) Root = S.substr(5);
      if (S.rfind("root2=", 0) == 0) Root2 = S.substr(6);
      if (S.rfind("out=", 0) == 0) Out = S.substr(4);
    }
    return true;
  }
  PluginASTAction::ActionType getActionType() override {
    return ReplaceAction;
  }
  std::string Root, Root2, Out;
};
}  // namespace

static FrontendPluginRegistry::Add<Action> X("repo-ir", "lower project to IR");
