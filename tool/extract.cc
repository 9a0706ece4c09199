// Extractor: resolved program -> JSON (one file per translation unit).
// Functions with bodies whose location lies under --root are emitted with
// their clang CFG flattened into blocks of events with expression trees.
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;
static std::string gOut;

static std::string usrOf(const Decl *D) {
  llvm::SmallString<128> buf;
  if (index::generateUSRForDecl(D, buf)) return "";
  return std::string(buf.str());
}

class Ex {
 public:
  explicit Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
  }
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Array Functions;
  Array Classes;
  std::set<std::string> seenFn, seenCls;

  // --- per function state
  std::map<const Stmt *, int> ids;
  int nextId = 0;
  std::string curUsr;
  ParentMap *PM = nullptr;
  bool inBody = false;

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }
  std::string locStr(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return file(L) + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(L));
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P = PP;
    D->printQualifiedName(os, P);
    return os.str();
  }
  // qualified name without template arguments on classes
  std::string clsName(const CXXRecordDecl *R) {
    if (!R) return "";
    if (R->isLambda()) return "lambda";
    return qn(R);
  }
  std::string fnName(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) return "lambda::operator()";
    }
    return qn(F);
  }
  std::string lamId(const LambdaExpr *L) {
    return "lambda@" + locStr(L->getBeginLoc()) + "#" + curParentTag;
  }
  std::string curParentTag;
  std::map<const CXXMethodDecl *, std::string> lamOps;
  std::string fnUsr(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      auto it = lamOps.find(M);
      if (it != lamOps.end()) return it->second;
      if (M->getParent()->isLambda())
        return "lambda@" + locStr(M->getParent()->getBeginLoc());
    }
    return usrOf(F);
  }
  std::string varId(const ValueDecl *V) {
    SourceLocation L = SM.getExpansionLoc(V->getLocation());
    std::string n = V->getNameAsString();
    if (n.empty()) n = "_";
    return n + "@" + std::to_string(SM.getExpansionLineNumber(L)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(L));
  }
  int idOf(const Stmt *S) {
    auto it = ids.find(S);
    if (it != ids.end()) return it->second;
    return ids[S] = nextId++;
  }

  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        if (keepCast(P)) return E;
        E = P->getSubExpr();
        continue;
      }
      break;
    }
    return E;
  }
  static bool keepCast(const ImplicitCastExpr *P) {
    if (P->getCastKind() == CK_FloatingToIntegral) return true;
    if (P->getCastKind() == CK_UserDefinedConversion) return false;
    return false;
  }
  bool narrowing(const CastExpr *P, ASTContext &C) { return false; }

  Value E(const Expr *X) {
    const Expr *S = strip(X);
    if (!S) return Array{"null"};
    if (auto *D = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *V = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) return Array{"fn", fnName(F), fnUsr(F)};
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        std::string n = qn(EC);
        return Array{"enum", n, llvm::toString(EC->getInitVal(), 10)};
      }
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
          Array a{"g", qn(VD)};
          Expr::EvalResult R;
          if (VD->getType().isConstQualified() && !S->isValueDependent() &&
              VD->getInit() && S->EvaluateAsRValue(R, C) && !R.HasSideEffects) {
            if (R.Val.isInt()) a.push_back(llvm::toString(R.Val.getInt(), 10));
            else if (R.Val.isFloat()) {
              llvm::SmallString<32> b; R.Val.getFloat().toString(b);
              a.push_back(b.str().str());
            }
          }
          return a;
        }
      }
      return Array{"v", varId(V)};
    }
    if (auto *M = dyn_cast<MemberExpr>(S)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        return Array{"m", E(M->getBase()), clsName(dyn_cast<CXXRecordDecl>(F->getParent())) + "::" + F->getNameAsString()};
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) return Array{"g", qn(V)};
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl()))
        return Array{"fn", fnName(F), fnUsr(F), E(M->getBase())};
      if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl()))
        return Array{"enum", qn(EC), llvm::toString(EC->getInitVal(), 10)};
    }
    if (isa<CXXThisExpr>(S)) return Array{"this"};
    if (auto *L = dyn_cast<IntegerLiteral>(S)) return Array{"lit", llvm::toString(L->getValue(), 10, L->getType()->isSignedIntegerType())};
    if (auto *L = dyn_cast<FloatingLiteral>(S)) {
      llvm::SmallString<32> b; L->getValue().toString(b);
      return Array{"lit", b.str().str()};
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(S)) return Array{"lit", L->getValue() ? "true" : "false"};
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) return Array{"lit", "null"};
    if (auto *L = dyn_cast<clang::StringLiteral>(S)) return Array{"str", L->getCharByteWidth() == 1 ? sane(L->getString().str()) : ""};
    if (auto *L = dyn_cast<CharacterLiteral>(S)) return Array{"lit", std::to_string(L->getValue())};
    if (auto *B = dyn_cast<BinaryOperator>(S)) {
      return Array{"op", B->getOpcodeStr().str(), E(B->getLHS()), E(B->getRHS())};
    }
    if (auto *U = dyn_cast<UnaryOperator>(S)) {
      if (U->getOpcode() == UO_Deref) return Array{"d", E(U->getSubExpr())};
      if (U->getOpcode() == UO_AddrOf) return Array{"a", E(U->getSubExpr())};
      if (U->getOpcode() == UO_Plus) return E(U->getSubExpr());
      std::string n = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isIncrementDecrementOp()) n += U->isPrefix() ? "pre" : "post";
      return Array{"op", n, E(U->getSubExpr())};
    }
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(S)) {
      auto K = O->getOperator();
      if (O->getNumArgs() == 2) {
        switch (K) {
          case OO_EqualEqual: case OO_ExclaimEqual: case OO_Less: case OO_Greater:
          case OO_LessEqual: case OO_GreaterEqual: case OO_Plus: case OO_Minus:
          case OO_Equal: case OO_PlusEqual: case OO_MinusEqual: case OO_Star: case OO_Slash:
          case OO_StarEqual: case OO_SlashEqual:
            return Array{"op", getOperatorSpelling(K), E(O->getArg(0)), E(O->getArg(1)), idOf(S)};
          case OO_Subscript:
            return Array{"idx", E(O->getArg(0)), E(O->getArg(1)), idOf(S)};
          case OO_PlusPlus: case OO_MinusMinus:
            return Array{"op", std::string(getOperatorSpelling(K)) + "post", E(O->getArg(0)), idOf(S)};
          default: break;
        }
      } else if (O->getNumArgs() == 1) {
        if (K == OO_Star || K == OO_Arrow) return Array{"d", E(O->getArg(0))};
        if (K == OO_Exclaim) return Array{"op", "!", E(O->getArg(0))};
        if (K == OO_Minus) return Array{"op", "-", E(O->getArg(0))};
        if (K == OO_PlusPlus || K == OO_MinusMinus)
          return Array{"op", std::string(getOperatorSpelling(K)) + "pre", E(O->getArg(0)), idOf(S)};
      }
      return Array{"call", idOf(S)};
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(S)) {
      // smart pointer / optional / reference_wrapper get + bool conversions
      if (auto *MD = MC->getMethodDecl()) {
        if (isa<CXXConversionDecl>(MD)) {
          if (MD->getReturnType()->isBooleanType())
            return Array{"bool", E(MC->getImplicitObjectArgument())};
          return E(MC->getImplicitObjectArgument());
        }
      }
      return Array{"call", idOf(S)};
    }
    if (auto *CE = dyn_cast<CallExpr>(S)) {
      if (auto *F = CE->getDirectCallee()) {
        std::string n = qn(F);
        if ((n == "std::move" || n == "std::forward") && CE->getNumArgs() == 1)
          return Array{"mv", E(CE->getArg(0))};
        if ((n == "absl::implicit_cast" || n == "std::addressof") && CE->getNumArgs() == 1) return E(CE->getArg(0));
      }
      return Array{"call", idOf(S)};
    }
    if (auto *CC = dyn_cast<CXXConstructExpr>(S)) {
      auto *CD = CC->getConstructor();
      if (CD->isCopyOrMoveConstructor() && CC->getNumArgs() >= 1) {
        return E(CC->getArg(0));
      }
      // converting single-arg ctors of wrapper types: keep as ctor
      Array a{"ctor", clsName(CD->getParent()), idOf(S)};
      for (auto *A : CC->arguments()) a.push_back(E(A));
      return a;
    }
    if (auto *CC = dyn_cast<CXXInheritedCtorInitExpr>(S)) return Array{"ctor", clsName(CC->getConstructor()->getParent()), idOf(S)};
    if (auto *L = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *Sem = L->isSemanticForm() ? L : L->getSemanticForm();
      if (!Sem) Sem = L;
      Array a{"init", ty(Sem->getType())};
      for (auto *A : Sem->inits()) a.push_back(E(A));
      return a;
    }
    if (auto *L = dyn_cast<CXXStdInitializerListExpr>(S)) return E(L->getSubExpr());
    if (auto *L = dyn_cast<LambdaExpr>(S)) return Array{"lam", lamId(L)};
    if (auto *N = dyn_cast<CXXNewExpr>(S)) {
      Array a{"new", ty(N->getAllocatedType()), idOf(S)};
      if (N->hasInitializer() && N->getInitializer()) a.push_back(E(N->getInitializer()));
      return a;
    }
    if (auto *K = dyn_cast<ConditionalOperator>(S)) return Array{"cond", E(K->getCond()), E(K->getTrueExpr()), E(K->getFalseExpr())};
    if (auto *K = dyn_cast<ExplicitCastExpr>(S)) {
      // user-visible casts are kept with the destination type
      if (isa<CXXFunctionalCastExpr>(K) || isa<CXXStaticCastExpr>(K) || isa<CStyleCastExpr>(K) ||
          isa<CXXReinterpretCastExpr>(K) || isa<CXXConstCastExpr>(K) || isa<CXXDynamicCastExpr>(K)) {
        if (K->getCastKind() == CK_ConstructorConversion) return E(K->getSubExpr());
        return Array{"cast", ty(K->getTypeAsWritten()), E(K->getSubExpr())};
      }
      return E(K->getSubExpr());
    }
    if (auto *K = dyn_cast<ImplicitCastExpr>(S)) {
      return Array{"cast", ty(K->getType()), E(K->getSubExpr())};
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(S)) return Array{"idx", E(A->getBase()), E(A->getIdx())};
    if (auto *O = dyn_cast<OpaqueValueExpr>(S)) { if (O->getSourceExpr()) return E(O->getSourceExpr()); }
    if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
      if (S->getType()->isBooleanType()) return Array{"lit", "false"};
      if (S->getType()->isPointerType()) return Array{"lit", "null"};
      if (S->getType()->isArithmeticType()) return Array{"lit", "0"};
      return Array{"init", ty(S->getType())};
    }
    if (auto *T = dyn_cast<CXXTypeidExpr>(S)) return Array{"?", "typeid"};
    {
      Expr::EvalResult R;
      if (!S->isValueDependent() && !S->isTypeDependent() && S->EvaluateAsRValue(R, C) && R.Val.isInt())
        return Array{"lit", llvm::toString(R.Val.getInt(), 10)};
    }
    return Array{"?", S->getStmtClassName(), line(S->getBeginLoc())};
  }

  std::string sane(std::string s) {
    for (auto &c : s) if ((unsigned char)c >= 0x80 || ((unsigned char)c < 0x20 && c != '\n' && c != '\t')) c = '?';
    return s;
  }

  bool discarded(const Expr *X) {
    const Stmt *S = X;
    while (true) {
      const Stmt *P = PM->getParent(S);
      if (!P) return true;
      if (isa<ExprWithCleanups>(P) || isa<ParenExpr>(P) || isa<MaterializeTemporaryExpr>(P) ||
          isa<CXXBindTemporaryExpr>(P) || isa<ConstantExpr>(P)) { S = P; continue; }
      if (auto *IC = dyn_cast<ImplicitCastExpr>(P)) { (void)IC; S = P; continue; }
      if (auto *EC = dyn_cast<ExplicitCastExpr>(P)) {
        if (EC->getCastKind() == CK_ToVoid) return true;
        return false;
      }
      if (isa<CompoundStmt>(P) || isa<CaseStmt>(P) || isa<DefaultStmt>(P) || isa<LabelStmt>(P)) return true;
      if (auto *I = dyn_cast<IfStmt>(P)) return I->getThen() == S || I->getElse() == S;
      if (auto *W = dyn_cast<WhileStmt>(P)) return W->getBody() == S;
      if (auto *W = dyn_cast<DoStmt>(P)) return W->getBody() == S;
      if (auto *W = dyn_cast<ForStmt>(P)) return W->getBody() == S || W->getInc() == S || W->getInit() == S;
      if (auto *W = dyn_cast<CXXForRangeStmt>(P)) return W->getBody() == S;
      if (auto *B = dyn_cast<BinaryOperator>(P)) {
        if (B->getOpcode() == BO_Comma && B->getLHS() == S) return true;
      }
      return false;
    }
  }

  void callee(Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["fn"] = fnName(F);
    o["usr"] = fnUsr(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = clsName(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
    }
    if (F->isNoReturn()) o["noret"] = true;
    Array ro;
    int i = 0;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      // parameter through which the callee may write
      if ((T->isReferenceType() || T->isPointerType()) && !T->getPointeeType().isConstQualified() && !T->isRValueReferenceType())
        ro.push_back(i);
      ++i;
    }
    if (!ro.empty()) o["outp"] = std::move(ro);
  }

  void emit(Array &out, const Stmt *S) {
    if (auto *DS = dyn_cast<DeclStmt>(S)) {
      for (auto *D : DS->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          Object o{{"k", "decl"}, {"var", varId(V)}, {"ty", ty(V->getType())}, {"line", line(V->getLocation())}};
          if (V->getInit()) {
            const Expr *I = strip(V->getInit());
            o["init"] = E(V->getInit());
            (void)I;
          }
          if (V->isStaticLocal()) o["static"] = true;
          if (V->getType()->isReferenceType()) o["ref"] = true;
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            Array bs;
            for (auto *B : DD->bindings()) {
              bs.push_back(Array{varId(B), B->getBinding() ? E(B->getBinding()) : Value(nullptr)});
            }
            o["binds"] = std::move(bs);
          }
          out.push_back(std::move(o));
        }
      }
      return;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      Object o{{"k", "ret"}, {"line", line(R->getBeginLoc())}};
      if (R->getRetValue()) o["e"] = E(R->getRetValue());
      out.push_back(std::move(o));
      return;
    }
    auto *X = dyn_cast<Expr>(S);
    if (!X) return;
    if (auto *B = dyn_cast<BinaryOperator>(X)) {
      if (B->isAssignmentOp())
        out.push_back(Object{{"k", "asg"}, {"op", B->getOpcodeStr().str()}, {"l", E(B->getLHS())}, {"r", E(B->getRHS())}, {"line", line(B->getOperatorLoc())}, {"lty", ty(B->getLHS()->getType())}});
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(X)) {
      if (U->isIncrementDecrementOp())
        out.push_back(Object{{"k", "asg"}, {"op", U->isIncrementOp() ? "++" : "--"}, {"l", E(U->getSubExpr())}, {"line", line(U->getOperatorLoc())}});
      return;
    }
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(X)) {
      auto K = O->getOperator();
      auto *F = O->getDirectCallee();
      if (O->isAssignmentOp() && O->getNumArgs() == 2) {
        Object o{{"k", "asg"}, {"op", getOperatorSpelling(K)}, {"l", E(O->getArg(0))}, {"r", E(O->getArg(1))}, {"line", line(O->getOperatorLoc())}, {"id", idOf(O)}, {"lty", ty(O->getArg(0)->getType())}};
        callee(o, F);
        out.push_back(std::move(o));
        return;
      }
      if (K == OO_PlusPlus || K == OO_MinusMinus) {
        Object o{{"k", "asg"}, {"op", K == OO_PlusPlus ? "++" : "--"}, {"l", E(O->getArg(0))}, {"line", line(O->getOperatorLoc())}, {"id", idOf(O)}};
        callee(o, F);
        out.push_back(std::move(o));
        return;
      }
      if (K == OO_Subscript && O->getNumArgs() == 2) {
        Object o{{"k", "idx"}, {"id", idOf(O)}, {"recv", E(O->getArg(0))}, {"i", E(O->getArg(1))}, {"line", line(O->getOperatorLoc())}};
        callee(o, F);
        out.push_back(std::move(o));
        return;
      }
      if ((K == OO_Star || K == OO_Arrow) && O->getNumArgs() == 1) {
        Object o{{"k", "deref"}, {"e", E(O->getArg(0))}, {"line", line(O->getOperatorLoc())}, {"rty", ty(O->getArg(0)->getType())}};
        out.push_back(std::move(o));
        return;
      }
      if (O->getNumArgs() == 2 && (K == OO_EqualEqual || K == OO_ExclaimEqual || K == OO_Less || K == OO_Greater || K == OO_LessEqual || K == OO_GreaterEqual || K == OO_Plus || K == OO_Minus || K == OO_Star || K == OO_Slash)) {
        return;
      }
      if (O->getNumArgs() == 1 && (K == OO_Exclaim || K == OO_Minus)) return;
      Object o{{"k", "call"}, {"id", idOf(O)}, {"line", line(O->getOperatorLoc())}, {"ty", ty(O->getType())}};
      callee(o, F);
      bool mem = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
      Array args;
      for (unsigned i = 0; i < O->getNumArgs(); ++i) {
        if (i == 0 && mem) { o["recv"] = E(O->getArg(0)); o["rty"] = ty(O->getArg(0)->getType()); continue; }
        args.push_back(E(O->getArg(i)));
      }
      o["args"] = std::move(args);
      if (discarded(O)) o["disc"] = true;
      out.push_back(std::move(o));
      return;
    }
    if (auto *CE = dyn_cast<CallExpr>(X)) {
      const FunctionDecl *F = CE->getDirectCallee();
      if (F && (qn(F) == "std::move" || qn(F) == "std::forward")) {
        if (CE->getNumArgs() == 1)
          out.push_back(Object{{"k", "mv"}, {"e", E(CE->getArg(0))}, {"line", line(CE->getBeginLoc())}});
        return;
      }
      if (F && isa<CXXConversionDecl>(F)) return;
      Object o{{"k", "call"}, {"id", idOf(CE)}, {"line", line(CE->getExprLoc())}, {"ty", ty(CE->getType())}};
      callee(o, F);
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(CE)) {
        if (MC->getImplicitObjectArgument()) {
          o["recv"] = E(MC->getImplicitObjectArgument());
          o["rty"] = ty(MC->getImplicitObjectArgument()->getType());
          // explicit Base::f() call is not virtual
          if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens()))
            if (ME->hasQualifier()) o["virt"] = false;
        }
      } else if (!F) {
        o["target"] = E(CE->getCallee());
      }
      Array args, aty;
      for (auto *A : CE->arguments()) { args.push_back(E(A)); aty.push_back(ty(A->getType())); }
      o["args"] = std::move(args);
      o["aty"] = std::move(aty);
      if (discarded(CE)) o["disc"] = true;
      out.push_back(std::move(o));
      return;
    }
    if (auto *CC = dyn_cast<CXXConstructExpr>(X)) {
      auto *CD = CC->getConstructor();
      if (CD->isCopyOrMoveConstructor()) {
        if (CC->isElidable()) return;
        return;
      }
      Object o{{"k", "ctor"}, {"id", idOf(CC)}, {"line", line(CC->getExprLoc())}, {"ty", ty(CC->getType())}};
      callee(o, CD);
      Array args;
      for (auto *A : CC->arguments()) args.push_back(E(A));
      o["args"] = std::move(args);
      out.push_back(std::move(o));
      return;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(X)) {
      Object o{{"k", "new"}, {"id", idOf(N)}, {"line", line(N->getBeginLoc())}, {"ty", ty(N->getAllocatedType())}};
      if (discarded(N)) o["disc"] = true;
      out.push_back(std::move(o));
      return;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(X)) {
      out.push_back(Object{{"k", "delete"}, {"e", E(D->getArgument())}, {"line", line(D->getBeginLoc())}});
      return;
    }
    if (auto *U = dyn_cast<CXXThrowExpr>(X)) {
      out.push_back(Object{{"k", "throw"}, {"line", line(U->getBeginLoc())}});
      return;
    }
    if (auto *M = dyn_cast<MemberExpr>(X)) {
      if (isa<FieldDecl>(M->getMemberDecl()))
        out.push_back(Object{{"k", "mref"}, {"e", E(M)}, {"line", line(M->getMemberLoc())}});
      return;
    }
    if (auto *L = dyn_cast<LambdaExpr>(X)) {
      Object o{{"k", "lam"}, {"lam", lamId(L)}, {"line", line(L->getBeginLoc())}};
      Array caps;
      auto ii = L->capture_init_begin();
      for (auto &Cp : L->captures()) {
        const Expr *I = *ii++;
        if (Cp.capturesThis()) { caps.push_back(Array{"this"}); continue; }
        if (Cp.capturesVariable()) {
          auto *V = Cp.getCapturedVar();
          bool initcap = L->isInitCapture(&Cp);
          std::string mode = Cp.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          Array a{mode, varId(V), ty(V->getType())};
          if (initcap && isa<VarDecl>(V) && cast<VarDecl>(V)->getInit()) a.push_back(E(cast<VarDecl>(V)->getInit()));
          caps.push_back(std::move(a));
          (void)I;
        }
      }
      o["caps"] = std::move(caps);
      out.push_back(std::move(o));
      return;
    }
  }

  void attrs(Object &o, const Decl *D) {
    Array a;
    for (auto *A : D->attrs()) {
      bool ts = isa<GuardedByAttr>(A) || isa<PtGuardedByAttr>(A) || isa<RequiresCapabilityAttr>(A) ||
                isa<LocksExcludedAttr>(A) || isa<AcquiredBeforeAttr>(A) || isa<AcquiredAfterAttr>(A) ||
                isa<AcquireCapabilityAttr>(A) || isa<ReleaseCapabilityAttr>(A) ||
                isa<AssertExclusiveLockAttr>(A) || isa<NoThreadSafetyAnalysisAttr>(A) || isa<WarnUnusedResultAttr>(A);
      if (!ts) continue;
      Array args;
      auto add = [&](auto *X) { for (auto *e : X->args()) args.push_back(E(e)); };
      if (auto *X = dyn_cast<RequiresCapabilityAttr>(A)) add(X);
      else if (auto *X = dyn_cast<LocksExcludedAttr>(A)) add(X);
      else if (auto *X = dyn_cast<AcquiredBeforeAttr>(A)) add(X);
      else if (auto *X = dyn_cast<AcquiredAfterAttr>(A)) add(X);
      else if (auto *X = dyn_cast<AcquireCapabilityAttr>(A)) add(X);
      else if (auto *X = dyn_cast<GuardedByAttr>(A)) args.push_back(E(X->getArg()));
      else if (auto *X = dyn_cast<PtGuardedByAttr>(A)) args.push_back(E(X->getArg()));
      a.push_back(Array{A->getSpelling(), std::move(args)});
    }
    if (!a.empty()) o["attrs"] = std::move(a);
  }

  void doFunction(const FunctionDecl *F, const LambdaExpr *Lam, const std::string &parentUsr) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || Def != F) return;
    if (F->isDependentContext()) return;
    if (!inRoot(F->getLocation()) && !(Lam && inRoot(Lam->getBeginLoc()))) return;
    std::string usr = Lam ? lamOps[cast<CXXMethodDecl>(F)] : fnUsr(F);
    if (usr.empty()) return;
    if (!seenFn.insert(usr).second) return;
    Stmt *Body = F->getBody();
    if (!Body) return;

    ids.clear(); nextId = 0;
    curUsr = usr;
    if (!Lam) curParentTag = std::to_string(std::hash<std::string>{}(usr) % 1000003);
    ParentMap pm(Body);
    PM = &pm;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
      for (auto *I : CD->inits()) if (I->getInit()) pm.addStmt(I->getInit());

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddCXXDefaultInitExprInAggregates = false;
    BO.PruneTriviallyFalseEdges = true;
    std::unique_ptr<CFG> cfg = CFG::buildCFG(F, Body, &C, BO);
    Object o{{"usr", usr}, {"name", Lam ? std::string("lambda") : fnName(F)}, {"file", file(F->getLocation())}, {"line", line(F->getLocation())}, {"ret", ty(F->getReturnType())}};
    if (Lam) { o["parent"] = parentUsr; o["lambda"] = true; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (!Lam) o["cls"] = clsName(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(fnUsr(B));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    attrs(o, F);
    if (auto *Can = F->getCanonicalDecl()) if (Can != F) { Object t; attrs(t, Can); if (auto *v = t.get("attrs")) if (!o.get("attrs")) o["attrs"] = *v; }
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(Array{varId(P), ty(P->getType())});
    o["params"] = std::move(ps);

    if (!cfg) { o["nocfg"] = true; Functions.push_back(std::move(o)); return; }
    // number all interesting statements first so that ids are deterministic
    Array blocks;
    for (const CFGBlock *B : *cfg) {
      Object b{{"id", (int)B->getBlockID()}};
      Array ev;
      for (const CFGElement &El : *B) {
        switch (El.getKind()) {
          case CFGElement::Statement:
          case CFGElement::Constructor:
          case CFGElement::CXXRecordTypedCall:
            emit(ev, El.castAs<CFGStmt>().getStmt());
            break;
          case CFGElement::Initializer: {
            auto *I = El.castAs<CFGInitializer>().getInitializer();
            Object e{{"k", "init"}, {"line", line(I->getSourceLocation())}};
            if (I->isMemberInitializer()) e["field"] = clsName(cast<CXXRecordDecl>(I->getMember()->getParent())) + "::" + I->getMember()->getNameAsString();
            else if (I->isBaseInitializer()) e["base"] = ty(QualType(I->getBaseClass(), 0));
            else if (I->isDelegatingInitializer()) e["deleg"] = true;
            if (I->getInit()) e["e"] = E(I->getInit());
            ev.push_back(std::move(e));
            break;
          }
          case CFGElement::AutomaticObjectDtor: {
            auto D = El.castAs<CFGAutomaticObjDtor>();
            auto *V = D.getVarDecl();
            Object e{{"k", "dtor"}, {"var", varId(V)}, {"ty", ty(V->getType())}, {"line", line(D.getTriggerStmt()->getEndLoc())}};
            if (auto *DD = D.getDestructorDecl(C)) e["usr"] = fnUsr(DD);
            ev.push_back(std::move(e));
            break;
          }
          case CFGElement::TemporaryDtor: {
            auto *BT = El.castAs<CFGTemporaryDtor>().getBindTemporaryExpr();
            Object e{{"k", "tdtor"}, {"ty", ty(BT->getType())}, {"line", line(BT->getEndLoc())}};
            ev.push_back(std::move(e));
            break;
          }
          default: break;
        }
      }
      b["ev"] = std::move(ev);
      Array succ;
      const Stmt *T = B->getTerminatorStmt();
      bool isSwitch = T && isa<SwitchStmt>(T);
      unsigned n = 0;
      for (auto I = B->succ_begin(); I != B->succ_end(); ++I, ++n) {
        const CFGBlock *SB = I->getReachableBlock();
        if (!SB) { succ.push_back(nullptr); continue; }
        Array s{(int)SB->getBlockID()};
        if (isSwitch) {
          const Stmt *Lb = SB->getLabel();
          if (Lb && isa<CaseStmt>(Lb)) {
            // all stacked case labels
            Array vals;
            const Stmt *q = Lb;
            while (q && isa<CaseStmt>(q)) { vals.push_back(E(cast<CaseStmt>(q)->getLHS())); q = cast<CaseStmt>(q)->getSubStmt(); }
            s.push_back(std::move(vals));
          } else if (Lb && isa<DefaultStmt>(Lb)) s.push_back("default");
          else s.push_back("default");
        }
        succ.push_back(std::move(s));
      }
      b["succ"] = std::move(succ);
      if (T) {
        b["term"] = T->getStmtClassName();
        b["tline"] = line(T->getBeginLoc());
        if (const Expr *Cd = dyn_cast_or_null<Expr>(B->getTerminatorCondition(false))) {
          b["cond"] = E(Cd);
          b["cline"] = line(Cd->getBeginLoc());
        }
        if (isa<CXXForRangeStmt>(T)) b["rangefor"] = true;
        if (B->getTerminator().isTemporaryDtorsBranch()) b["tdbranch"] = true;
      }
      if (B->hasNoReturnElement()) b["noret"] = true;
      blocks.push_back(std::move(b));
    }
    o["entry"] = (int)cfg->getEntry().getBlockID();
    o["exit"] = (int)cfg->getExit().getBlockID();
    o["blocks"] = std::move(blocks);
    Functions.push_back(std::move(o));
  }

  void doClass(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    auto *Sp = dyn_cast<ClassTemplateSpecializationDecl>(R);
    if (!inRoot(R->getLocation()) && !(Sp && inRoot(Sp->getSpecializedTemplate()->getLocation()))) return;
    std::string n = clsName(R);
    if (!seenCls.insert(n).second) return;
    Object o{{"name", n}, {"file", file(R->getLocation())}, {"line", line(R->getLocation())}};
    Array bases;
    for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) bases.push_back(clsName(BR));
    o["bases"] = std::move(bases);
    Array fs;
    curUsr = "class"; ids.clear(); nextId = 0;
    for (auto *F : R->fields()) {
      Object f{{"name", F->getNameAsString()}, {"ty", ty(F->getType())}, {"line", line(F->getLocation())}};
      if (F->isMutable()) f["mutable"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = E(F->getInClassInitializer());
      attrs(f, F);
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      Object m{{"name", M->getNameAsString()}, {"usr", fnUsr(M)}, {"line", line(M->getLocation())}, {"access", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private"}};
      if (M->isVirtual()) m["virt"] = true;
      if (M->isPureVirtual()) m["pure"] = true;
      if (M->isDeleted()) m["deleted"] = true;
      if (M->isDefaulted()) m["defaulted"] = true;
      if (M->isConst()) m["const"] = true;
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      m["ret"] = ty(M->getReturnType());
      Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(fnUsr(B));
      if (!ov.empty()) m["overrides"] = std::move(ov);
      attrs(m, M);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    Classes.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  explicit V(Ex &E) : X(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  Ex &X;
  std::vector<std::pair<const FunctionDecl *, std::string>> stack;

  bool TraverseDecl(Decl *D) {
    if (!D) return true;
    // skip whole top-level decls outside the root, except namespaces
    if (isa<TranslationUnitDecl>(D) || isa<NamespaceDecl>(D) || isa<LinkageSpecDecl>(D))
      return RecursiveASTVisitor<V>::TraverseDecl(D);
    // explicit instantiations of the root's templates (tool/instantiate.cc)
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D))
      if (X.inRoot(S->getSpecializedTemplate()->getLocation()))
        return RecursiveASTVisitor<V>::TraverseDecl(D);
    if (!X.inRoot(D->getLocation())) {
      // pybind-style main module function macros still expand in root files
      return true;
    }
    return RecursiveASTVisitor<V>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    handle(F, nullptr, "");
    return true;
  }
  void handle(const FunctionDecl *F, const LambdaExpr *L, const std::string &parent) {
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || Def != F) return;
    // Register lambdas of this body first so that callee ids resolve.
    std::vector<const LambdaExpr *> lams;
    std::string usr = L ? X.lamOps[cast<CXXMethodDecl>(F)] : X.fnUsr(F);
    if (!L) X.curParentTag = std::to_string(std::hash<std::string>{}(usr) % 1000003);
    struct LV : RecursiveASTVisitor<LV> {
      std::vector<const LambdaExpr *> &l; bool top = true;
      explicit LV(std::vector<const LambdaExpr *> &l) : l(l) {}
      bool shouldVisitImplicitCode() const { return false; }
      bool TraverseLambdaExpr(LambdaExpr *E) {
        l.push_back(E);
        for (unsigned i = 0, n = E->capture_size(); i < n; ++i) {
          auto *C = E->capture_begin() + i;
          if (E->isInitCapture(C)) {
            auto *VD = dyn_cast<VarDecl>(C->getCapturedVar());
            if (VD && VD->getInit()) TraverseStmt(VD->getInit());
          }
        }
        return true;
      }
    } lv(lams);
    lv.TraverseStmt(F->getBody());
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) for (auto *I : CD->inits()) if (I->isWritten()) lv.TraverseStmt(I->getInit());
    for (auto *E : lams) {
      std::string id = X.lamId(E);
      auto *Op = E->getCallOperator();
      X.lamOps[Op] = id;
    }
    std::string tag = X.curParentTag;
    X.doFunction(F, L, parent);
    for (auto *E : lams) {
      X.curParentTag = tag;
      auto *Op = E->getCallOperator();
      if (E->isGenericLambda()) {
        if (auto *FT = Op->getDescribedFunctionTemplate()) {
          bool first = true;
          for (auto *S : FT->specializations()) {
            auto *M = cast<CXXMethodDecl>(S);
            if (!M->hasBody()) continue;
            X.lamOps[M] = first ? X.lamId(E) : X.lamId(E) + "!" + usrOf(M);
            first = false;
            handle(M, E, usr);
            X.curParentTag = tag;
          }
        }
      } else {
        handle(Op, E, usr);
      }
      X.curParentTag = tag;
    }
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { X.doClass(R); return true; }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    bool err = C.getDiagnostics().hasErrorOccurred();
    Ex E(C);
    V v(E);
    if (!err) v.TraverseDecl(C.getTranslationUnitDecl());
    Object o;
    o["error"] = err;
    o["functions"] = std::move(E.Functions);
    o["classes"] = std::move(E.Classes);
    std::error_code EC;
    llvm::raw_fd_ostream os(gOut, EC);
    os << Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char **argv) {
  // extract ROOT OUT FILE -- flags...
  if (argc < 5) return 2;
  gRoot = argv[1]; gOut = argv[2];
  std::string f = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {f});
  return Tool.run(tooling::newFrontendActionFactory<Act>().get());
}
