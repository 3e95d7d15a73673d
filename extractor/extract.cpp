// Fact extractor: dumps, for one translation unit, every function, class, enumeration and variable
// that is defined under the analysed source roots, as tab separated records (kind, key, JSON).
// It decides nothing: the rules in /verif/rules read these facts.

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;      // only definitions in these directories are dumped
static std::vector<std::string> Excludes;   // ... except in these
static std::unique_ptr<llvm::raw_fd_ostream> Out;
static unsigned long NumErrors = 0;

namespace {

class Dumper {
	ASTContext &Ctx;
	SourceManager &SM;
	PrintingPolicy Policy;
	std::set<std::string> Done;

public:
	explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), Policy(C.getPrintingPolicy()) {
		Policy.SuppressDefaultTemplateArgs = true;
		Policy.SuppressTagKeyword = true;
		Policy.Bool = true;
	}

	std::string fileOf(SourceLocation L) {
		L = SM.getFileLoc(L);
		auto F = SM.getFilename(L);
		return F.str();
	}
	unsigned lineOf(SourceLocation L) { return SM.getSpellingLineNumber(SM.getFileLoc(L)); }
	unsigned colOf(SourceLocation L) { return SM.getSpellingColumnNumber(SM.getFileLoc(L)); }

	bool inRoots(SourceLocation L) {
		if (L.isInvalid()) return false;
		std::string F = fileOf(L);
		for (auto &E : Excludes) if (F.find(E) != std::string::npos) return false;
		for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true;
		return false;
	}

	// Qualified name without template arguments.
	std::string qname(const Decl *D) {
		std::vector<std::string> Parts;
		const auto *ND = dyn_cast_or_null<NamedDecl>(D);
		while (ND) {
			std::string N;
			if (auto *R = dyn_cast<CXXRecordDecl>(ND); R && R->isLambda()) N = "(lambda)";
			else if (auto *C = dyn_cast<CXXConstructorDecl>(ND)) N = C->getParent()->getNameAsString();
			else if (auto *DD = dyn_cast<CXXDestructorDecl>(ND)) N = "~" + DD->getParent()->getNameAsString();
			else if (isa<CXXConversionDecl>(ND)) N = "operator-conv";
			else N = ND->getNameAsString();
			bool skip = false;
			if (auto *NS = dyn_cast<NamespaceDecl>(ND)) { if (NS->isAnonymousNamespace()) N = "(anon)"; else if (NS->isInline()) skip = true; }
			if (!skip) Parts.push_back(N);
			const DeclContext *DC = ND->getDeclContext();
			while (DC && !isa<NamedDecl>(DC)) DC = DC->getParent();
			if (!DC || isa<TranslationUnitDecl>(DC)) break;
			ND = cast<NamedDecl>(DC);
			if (isa<FunctionDecl>(ND) ) { /* local class */ }
		}
		std::string R;
		for (auto It = Parts.rbegin(); It != Parts.rend(); ++It) { if (!R.empty()) R += "::"; R += *It; }
		return R;
	}

	std::string usr(const Decl *D) {
		if (!D) return "";
		D = D->getCanonicalDecl();
		llvm::SmallString<256> B;
		if (index::generateUSRForDecl(D, B)) return "?" + std::to_string((uintptr_t) D);
		return std::string(B.str());
	}

	std::string fid(const FunctionDecl *F) {
		if (!F) return "";
		if (auto *M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) return lambdaId(M);
		return usr(F);
	}

	std::map<const CXXRecordDecl *, std::string> LambdaParents;

	std::string lambdaId(const CXXMethodDecl *M) {
		auto *R = M->getParent();
		auto L = R->getBeginLoc();
		std::string S = "lambda@" + shortFile(L) + ":" + std::to_string(lineOf(L)) + ":" + std::to_string(colOf(L));
		auto It = LambdaParents.find(R->getCanonicalDecl());
		if (It != LambdaParents.end()) S += "@" + It->second;
		if (M->isTemplateInstantiation()) { S += "<"; S += usrTail(M); S += ">"; }
		if (isa<CXXConversionDecl>(M)) S += "conv";
		return S;
	}
	std::string usrTail(const FunctionDecl *F) {
		std::string S;
		if (auto *A = F->getTemplateSpecializationArgs()) {
			llvm::raw_string_ostream OS(S);
			for (auto &X : A->asArray()) { X.print(Policy, OS, true); OS << ","; }
		}
		return S;
	}
	std::string shortFile(SourceLocation L) {
		std::string F = fileOf(L);
		auto P = F.find("src/main/cpp/");
		if (P != std::string::npos) return F.substr(P + 13);
		return F;
	}

	std::string varId(const ValueDecl *D) {
		auto L = D->getLocation();
		return D->getNameAsString() + "@" + std::to_string(lineOf(L)) + ":" + std::to_string(colOf(L));
	}

	std::string typeStr(QualType T) {
		if (T.isNull()) return "";
		std::string S = T.getCanonicalType().getAsString(Policy);
		if (S.size() > 600) S = S.substr(0, 600);
		return S;
	}

	// ------------------------------------------------------------------ functions

	struct FnState {
		std::map<const Stmt *, int> Ids;
		json::Array Nodes;
		std::vector<json::Object> NodeObjs;
		std::map<std::string, int> TypeIds;
		std::vector<std::string> Types;
		std::vector<const LambdaExpr *> Lambdas;
	};
	FnState *S = nullptr;
	std::string CurId;

	int typeId(QualType T) {
		std::string N = typeStr(T);
		auto It = S->TypeIds.find(N);
		if (It != S->TypeIds.end()) return It->second;
		int I = (int) S->Types.size();
		S->Types.push_back(N);
		S->TypeIds[N] = I;
		return I;
	}

	json::Object varInfo(const VarDecl *V) {
		json::Object O;
		O["id"] = varId(V);
		O["n"] = V->getNameAsString();
		O["t"] = typeId(V->getType());
		if (V->isStaticLocal()) O["static"] = true;
		if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
		if (V->getType()->isReferenceType()) O["ref"] = true;
		if (V->getInit()) O["init"] = add(V->getInit());
		if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
			json::Array A;
			for (auto *B : DD->bindings()) A.push_back(varId(B));
			O["bind"] = std::move(A);
		}
		return O;
	}

	void calleeInfo(json::Object &O, const FunctionDecl *F) {
		if (!F) return;
		O["f"] = qname(F);
		O["fid"] = fid(F);
		if (auto *FP = F->getType()->getAs<FunctionProtoType>()) {
			if (FP->getExceptionSpecType() != EST_Unevaluated && FP->getExceptionSpecType() != EST_Uninstantiated && !FP->isDependentType() && FP->isNothrow()) O["noex"] = true;
			else if (FP->getExceptionSpecType() == EST_Unevaluated || FP->getExceptionSpecType() == EST_Uninstantiated) O["noexu"] = true;
		}
		if (F->isNoReturn()) O["noret"] = true;
		if (F->getBuiltinID()) O["builtin"] = true;
		if (F->isExternC()) O["extc"] = true;
		if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
			O["cls"] = qname(M->getParent());
			if (M->isVirtual()) O["virt"] = true;
			if (M->isConst()) O["cm"] = true;
			if (M->isStatic()) O["sm"] = true;
			if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
				if (C->isCopyConstructor()) O["copy"] = true;
				if (C->isMoveConstructor()) O["move"] = true;
				if (C->isDefaultConstructor()) O["defc"] = true;
			}
			if (isa<CXXConversionDecl>(M)) O["conv"] = true;
			if (M->isCopyAssignmentOperator()) O["copya"] = true;
			if (M->isMoveAssignmentOperator()) O["movea"] = true;
		}
		if (inRoots(F->getLocation())) O["r"] = true;
		json::Array PT;
		for (auto *P : F->parameters()) PT.push_back(typeId(P->getType()));
		if (!PT.empty()) O["pt"] = std::move(PT);
		if (F->isVariadic()) O["variadic"] = true;
		// template args of the callee, types only (std::make_shared<T>, dynamic_pointer_cast<T>)
		if (auto *A = F->getTemplateSpecializationArgs()) {
			std::string Str;
			llvm::raw_string_ostream OS(Str);
			bool First = true;
			for (auto &X : A->asArray()) { if (!First) OS << "; "; First = false; X.print(Policy, OS, true); }
			OS.flush();
			if (Str.size() > 300) Str = Str.substr(0, 300);
			O["ta"] = Str;
		}
	}

	int add(const Stmt *St) {
		if (!St) return -1;
		auto It = S->Ids.find(St);
		if (It != S->Ids.end()) return It->second;
		int Id = (int) S->NodeObjs.size();
		S->Ids[St] = Id;
		S->NodeObjs.emplace_back();
		json::Object O;
		O["k"] = St->getStmtClassName();
		auto L = St->getBeginLoc();
		if (L.isValid()) { O["l"] = (int64_t) lineOf(L); }
		if (auto *ME = dyn_cast<MemberExpr>(St)) O["l"] = (int64_t) lineOf(ME->getMemberLoc());
		json::Array C;
		bool DefaultChildren = true;

		if (auto *E = dyn_cast<Expr>(St)) {
			if (!E->getType().isNull()) O["t"] = typeId(E->getType());
			if (E->isLValue()) O["lv"] = true; else if (E->isXValue()) O["xv"] = true;
			if (!E->isValueDependent() && !E->isTypeDependent() && !E->getType().isNull() && E->getType()->isIntegralOrEnumerationType() && !E->isLValue()) {
				Expr::EvalResult R;
				if (E->EvaluateAsInt(R, Ctx)) {
					auto V = R.Val.getInt();
					O["iv"] = V.getSignificantBits() <= 64 ? (V.isSigned() ? json::Value(V.getExtValue()) : (V.getActiveBits() <= 63 ? json::Value((int64_t) V.getZExtValue()) : json::Value(llvm::toString(V, 10)))) : json::Value(llvm::toString(V, 10));
				}
			}
		}

		if (auto *E = dyn_cast<DeclRefExpr>(St)) {
			auto *D = E->getDecl();
			if (auto *F = dyn_cast<FunctionDecl>(D)) { O["fn"] = qname(F); O["fnid"] = fid(F); if (inRoots(F->getLocation())) O["r"] = true; }
			else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["ec"] = EC->getNameAsString(); O["en"] = qname(EC->getDeclContext() ? dyn_cast<Decl>(EC->getDeclContext()) : nullptr); }
			else if (auto *V = dyn_cast<VarDecl>(D)) {
				if (V->hasGlobalStorage() && !V->isStaticLocal()) { O["gv"] = qname(V); if (V->isStaticDataMember()) O["sdm"] = true; }
				else O["v"] = varId(V);
				if (V->isStaticLocal()) O["slocal"] = true;
				if (isa<ParmVarDecl>(V)) O["parm"] = true;
				if (E->refersToEnclosingVariableOrCapture()) O["cap"] = true;
				O["vt"] = typeId(V->getType());
			}
			else if (auto *B = dyn_cast<BindingDecl>(D)) { O["v"] = varId(B); }
			else if (isa<NonTypeTemplateParmDecl>(D)) O["nttp"] = D->getNameAsString();
			else O["d"] = D->getNameAsString();
			O["n"] = D->getNameAsString();
		} else if (auto *E = dyn_cast<MemberExpr>(St)) {
			auto *D = E->getMemberDecl();
			O["n"] = D->getNameAsString();
			O["m"] = qname(D);
			if (auto *FD = dyn_cast<FieldDecl>(D)) { O["fld"] = true; O["vt"] = typeId(FD->getType()); if (FD->isMutable()) O["mut"] = true; }
			else if (isa<VarDecl>(D)) { O["gv"] = qname(D); O["sdm"] = true; }
			else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["fn"] = qname(F); O["fnid"] = fid(F); }
			if (E->isArrow()) O["arrow"] = true;
			if (inRoots(D->getLocation())) O["r"] = true;
		} else if (auto *E = dyn_cast<CXXDependentScopeMemberExpr>(St)) {
			O["n"] = E->getMember().getAsString();
		} else if (auto *E = dyn_cast<CXXConstructExpr>(St)) {
			calleeInfo(O, E->getConstructor());
			if (E->isElidable()) O["elid"] = true;
			if (E->requiresZeroInitialization()) O["zi"] = true;
			if (isa<CXXTemporaryObjectExpr>(E)) O["tmp"] = true;
		} else if (auto *E = dyn_cast<CXXInheritedCtorInitExpr>(St)) {
			calleeInfo(O, E->getConstructor());
		} else if (auto *E = dyn_cast<CallExpr>(St)) {
			calleeInfo(O, E->getDirectCallee());
			if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) O["op"] = getOperatorSpelling(OC->getOperator());
			if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
				if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens()); ME && ME->hasQualifier()) O["qual"] = true;
				if (auto *RD = MC->getRecordDecl()) O["oc"] = qname(RD);
			}
			O["na"] = (int64_t) E->getNumArgs();
			if (E->isUnevaluatedBuiltinCall(Ctx)) O["uneval"] = true;
		} else if (auto *E = dyn_cast<CastExpr>(St)) {
			O["ck"] = E->getCastKindName();
			if (isa<ExplicitCastExpr>(St)) O["exp"] = true;
			if (auto *CF = E->getConversionFunction()) { O["cf"] = qname(CF); }
		} else if (auto *E = dyn_cast<BinaryOperator>(St)) {
			O["op"] = E->getOpcodeStr().str();
			if (E->isAssignmentOp()) O["asg"] = true;
			if (E->isCompoundAssignmentOp()) O["casg"] = true;
		} else if (auto *E = dyn_cast<UnaryOperator>(St)) {
			O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
			if (E->isPostfix()) O["post"] = true;
		} else if (auto *E = dyn_cast<StringLiteral>(St)) {
			if (E->getCharByteWidth() == 1) { std::string V = E->getString().str(); if (V.size() > 200) V = V.substr(0, 200); O["s"] = llvm::json::fixUTF8(V); }
			else O["slen"] = (int64_t) E->getLength();
		} else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(St)) {
			O["iv"] = E->getValue() ? 1 : 0;
		} else if (auto *E = dyn_cast<CXXDefaultArgExpr>(St)) {
			C.push_back(add(E->getExpr())); DefaultChildren = false;
		} else if (auto *E = dyn_cast<CXXDefaultInitExpr>(St)) {
			if (auto *FD = E->getField()) O["m"] = qname(FD);
			C.push_back(add(E->getExpr())); DefaultChildren = false;
		} else if (auto *E = dyn_cast<OpaqueValueExpr>(St)) {
			C.push_back(add(E->getSourceExpr())); DefaultChildren = false;
		} else if (auto *E = dyn_cast<LambdaExpr>(St)) {
			DefaultChildren = false;
			json::Array Caps;
			auto I = E->capture_init_begin();
			for (auto &Cap : E->captures()) {
				json::Object CO;
				if (Cap.capturesThis()) { CO["this"] = true; CO["star"] = Cap.getCaptureKind() == LCK_StarThis; }
				else if (Cap.capturesVariable()) {
					auto *V = Cap.getCapturedVar();
					CO["v"] = varId(V);
					CO["n"] = V->getNameAsString();
					CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
					CO["t"] = typeId(V->getType());
					if (auto *VD = dyn_cast<VarDecl>(V); VD && VD->isInitCapture()) CO["ic"] = true;
				}
				if (Cap.isImplicit()) CO["impl"] = true;
				if (I != E->capture_init_end()) { if (*I) { CO["init"] = add(*I); C.push_back(add(*I)); } ++I; }
				Caps.push_back(std::move(CO));
			}
			O["caps"] = std::move(Caps);
			O["mutl"] = E->isMutable();
			S->Lambdas.push_back(E);
			LambdaParents[E->getLambdaClass()->getCanonicalDecl()] = CurId;
			if (auto *Op = E->getCallOperator()) {
				O["lid"] = lambdaId(Op);
				if (auto *FT = Op->getDescribedFunctionTemplate()) {
					json::Array A;
					for (auto *Sp : FT->specializations()) A.push_back(lambdaId(cast<CXXMethodDecl>(Sp)));
					O["lids"] = std::move(A);
				}
			}
		} else if (auto *E = dyn_cast<CXXNewExpr>(St)) {
			O["at"] = typeId(E->getAllocatedType());
			if (E->getNumPlacementArgs()) O["plc"] = true;
			if (E->isArray()) O["arr"] = true;
			if (auto *CE = E->getConstructExpr()) C.push_back(add(CE));
			else if (E->getInitializer()) C.push_back(add(E->getInitializer()));
			for (auto *A : E->children()) { int X = add(A); bool Have = false; for (auto &Y : C) if (Y.getAsInteger() == X) Have = true; if (!Have) C.push_back(X); }
			DefaultChildren = false;
		} else if (auto *E = dyn_cast<CXXDeleteExpr>(St)) {
			if (E->isArrayForm()) O["arr"] = true;
		} else if (auto *E = dyn_cast<InitListExpr>(St)) {
			if (E->isSyntacticForm() && E->getSemanticForm()) { auto *Sem = E->getSemanticForm(); C.push_back(add(Sem)); DefaultChildren = false; }
			if (auto *FD = E->getInitializedFieldInUnion()) O["m"] = qname(FD);
		} else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(St)) {
			O["trait"] = (int64_t) E->getKind();
			if (E->isArgumentType()) O["argt"] = typeId(E->getArgumentType());
			else { O["argt"] = typeId(E->getArgumentExpr()->getType()); O["arge"] = add(E->getArgumentExpr()); }
			DefaultChildren = false;
		} else if (auto *E = dyn_cast<ArraySubscriptExpr>(St)) {
			(void) E;
		} else if (auto *D = dyn_cast<DeclStmt>(St)) {
			DefaultChildren = false;
			json::Array Vars;
			for (auto *DD : D->decls())
				if (auto *V = dyn_cast<VarDecl>(DD)) {
					auto VO = varInfo(V);
					if (auto *I = VO.get("init")) C.push_back(*I);
					Vars.push_back(std::move(VO));
				}
			O["vars"] = std::move(Vars);
		} else if (auto *I = dyn_cast<IfStmt>(St)) {
			DefaultChildren = false;
			if (I->isConstexpr()) O["cexpr"] = true;
			if (I->getInit()) { O["init"] = add(I->getInit()); C.push_back(add(I->getInit())); }
			if (I->getConditionVariableDeclStmt()) { O["cv"] = add(I->getConditionVariableDeclStmt()); C.push_back(add(I->getConditionVariableDeclStmt())); }
			O["cond"] = add(I->getCond()); C.push_back(add(I->getCond()));
			O["then"] = add(I->getThen()); C.push_back(add(I->getThen()));
			if (I->getElse()) { O["else"] = add(I->getElse()); C.push_back(add(I->getElse())); }
		} else if (auto *W = dyn_cast<WhileStmt>(St)) {
			O["cond"] = add(W->getCond()); O["body"] = add(W->getBody());
		} else if (auto *W = dyn_cast<DoStmt>(St)) {
			O["cond"] = add(W->getCond()); O["body"] = add(W->getBody());
		} else if (auto *W = dyn_cast<ForStmt>(St)) {
			DefaultChildren = false;
			if (W->getInit()) { O["init"] = add(W->getInit()); C.push_back(add(W->getInit())); }
			if (W->getCond()) { O["cond"] = add(W->getCond()); C.push_back(add(W->getCond())); }
			if (W->getInc()) { O["inc"] = add(W->getInc()); C.push_back(add(W->getInc())); }
			O["body"] = add(W->getBody()); C.push_back(add(W->getBody()));
		} else if (auto *W = dyn_cast<CXXForRangeStmt>(St)) {
			DefaultChildren = false;
			for (auto *X : {(const Stmt *) W->getInit(), (const Stmt *) W->getRangeStmt(), (const Stmt *) W->getBeginStmt(), (const Stmt *) W->getEndStmt(), (const Stmt *) W->getCond(), (const Stmt *) W->getInc(), (const Stmt *) W->getLoopVarStmt(), (const Stmt *) W->getBody()})
				if (X) C.push_back(add(X));
			if (W->getRangeInit()) O["range"] = add(W->getRangeInit());
			O["lvar"] = add(W->getLoopVarStmt());
			O["body"] = add(W->getBody());
			if (W->getCond()) O["cond"] = add(W->getCond());
		} else if (auto *W = dyn_cast<SwitchStmt>(St)) {
			O["cond"] = add(W->getCond()); O["body"] = add(W->getBody());
			if (W->isAllEnumCasesCovered()) O["allc"] = true;
		} else if (auto *Cs = dyn_cast<CaseStmt>(St)) {
			DefaultChildren = false;
			int LHS = add(Cs->getLHS());
			O["lhs"] = LHS; C.push_back(LHS);
			if (Cs->getRHS()) { O["rhs"] = add(Cs->getRHS()); }
			O["sub"] = add(Cs->getSubStmt()); C.push_back(add(Cs->getSubStmt()));
		} else if (auto *T = dyn_cast<CXXTryStmt>(St)) {
			(void) T;
		} else if (auto *T = dyn_cast<CXXCatchStmt>(St)) {
			if (T->getExceptionDecl()) { O["et"] = typeId(T->getCaughtType()); O["ev"] = varId(T->getExceptionDecl()); }
			else O["all"] = true;
		} else if (auto *E = dyn_cast<CXXTypeidExpr>(St)) {
			if (E->isTypeOperand()) { O["argt"] = typeId(E->getTypeOperand(Ctx)); DefaultChildren = false; }
		}
		if (DefaultChildren)
			for (const Stmt *Ch : St->children()) C.push_back(add(Ch));
		if (!C.empty()) O["c"] = std::move(C);
		S->NodeObjs[Id] = std::move(O);
		return Id;
	}

	const char *accessOf(const Decl *D) {
		switch (D->getAccess()) { case AS_public: return "public"; case AS_protected: return "protected"; case AS_private: return "private"; default: return "none"; }
	}

	void emitRec(const char *Kind, const std::string &Key, json::Object &&O) {
		*Out << Kind << '\t';
		for (char Ch : Key) *Out << (Ch == '\t' || Ch == '\n' ? ' ' : Ch);
		*Out << '\t' << json::Value(std::move(O)) << '\n';
	}

	static bool hasErrors(const Stmt *St) {
		if (!St) return false;
		if (isa<RecoveryExpr>(St)) return true;
		if (auto *E = dyn_cast<Expr>(St); E && E->containsErrors()) return true;
		if (auto *DS = dyn_cast<DeclStmt>(St)) for (auto *D : DS->decls()) if (D->isInvalidDecl()) return true;
		for (auto *C : St->children()) if (hasErrors(C)) return true;
		return false;
	}

	void dumpFunction(const FunctionDecl *F, const std::string &Parent = "") {
		const FunctionDecl *Def = nullptr;
		if (isa<CXXConstructorDecl>(F) && !F->doesThisDeclarationHaveABody() && F->isDefined(Def) && Def) F = Def;
		if (!F->doesThisDeclarationHaveABody() && !(isa<CXXConstructorDecl>(F) && F->getBody())) {
			return;
		}
		if (!inRoots(F->getLocation())) return;
		std::string Id = fid(F);
		if (!Done.insert(Id).second) return;
		if (F->isDependentContext()) {
			json::Object O;
			O["id"] = Id; O["qn"] = qname(F); O["file"] = shortFile(F->getLocation()); O["line"] = (int64_t) lineOf(F->getLocation());
			emitRec("D", Id, std::move(O));
			return;
		}
		const Stmt *Body = F->getBody();
		if (!Body) return;
		if (F->isInvalidDecl() || hasErrors(Body)) {
			json::Object O;
			O["id"] = Id; O["qn"] = qname(F); O["file"] = shortFile(F->getLocation()); O["line"] = (int64_t) lineOf(F->getLocation());
			emitRec("X", Id, std::move(O));
			return;
		}
		FnState St;
		FnState *Old = S; S = &St;
		std::string OldId = CurId; CurId = Id;
		json::Object O;
		O["id"] = Id;
		O["qn"] = qname(F);
		{ std::string FullN; llvm::raw_string_ostream OS(FullN); F->getNameForDiagnostic(OS, Policy, true); OS.flush(); if (FullN.size() > 400) FullN = FullN.substr(0, 400); O["dn"] = FullN; }
		O["name"] = F->getNameAsString();
		O["file"] = shortFile(F->getLocation());
		O["line"] = (int64_t) lineOf(F->getLocation());
		O["endline"] = (int64_t) lineOf(F->getEndLoc());
		O["ret"] = typeId(F->getReturnType());
		if (F->isTemplateInstantiation()) O["inst"] = true;
		if (F->isDefaulted()) O["defaulted"] = true;
		if (F->isImplicit()) O["implicit"] = true;
		if (F->isExternC()) O["extc"] = true;
		if (F->isStatic()) O["static"] = true;
		if (F->isNoReturn()) O["noret"] = true;
		if (auto *FP = F->getType()->getAs<FunctionProtoType>())
			if (FP->getExceptionSpecType() != EST_Unevaluated && FP->getExceptionSpecType() != EST_Uninstantiated && FP->isNothrow()) O["noex"] = true;
		if (auto *Pat = F->getTemplateInstantiationPattern()) { O["pat"] = usr(Pat); }
		if (F->isOverloadedOperator()) O["oper"] = getOperatorSpelling(F->getOverloadedOperator());
		if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
			O["cls"] = qname(M->getParent());
			O["clsid"] = usr(M->getParent());
			O["access"] = accessOf(M);
			O["const"] = M->isConst();
			if (M->isVirtual()) O["virt"] = true;
			if (M->isStatic()) O["smeth"] = true;
			json::Array Ov;
			for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
			if (!Ov.empty()) O["over"] = std::move(Ov);
			if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
				O["kind"] = "ctor";
				if (C->isCopyConstructor()) O["copy"] = true;
				if (C->isMoveConstructor()) O["move"] = true;
				if (C->isDefaultConstructor()) O["defc"] = true;
				if (C->isDelegatingConstructor()) O["deleg"] = true;
			} else if (isa<CXXDestructorDecl>(M)) O["kind"] = "dtor";
			else if (isa<CXXConversionDecl>(M)) O["kind"] = "conv";
			else if (M->getParent()->isLambda()) O["kind"] = "lambda";
			else O["kind"] = "method";
			if (M->isCopyAssignmentOperator()) O["copya"] = true;
			if (M->isMoveAssignmentOperator()) O["movea"] = true;
		} else O["kind"] = "function";
		if (!Parent.empty()) O["parent"] = Parent;
		json::Array PA;
		for (auto *P : F->parameters()) {
			json::Object PO;
			PO["id"] = varId(P); PO["n"] = P->getNameAsString(); PO["t"] = typeId(P->getType());
			if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && P->getDefaultArg()) PO["def"] = add(P->getDefaultArg());
			PA.push_back(std::move(PO));
		}
		O["params"] = std::move(PA);
		if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
			json::Array IA;
			for (auto *I : C->inits()) {
				json::Object IO;
				if (I->isAnyMemberInitializer()) { if (auto *FD = I->getAnyMember()) { IO["m"] = qname(FD); IO["n"] = FD->getNameAsString(); } }
				else if (I->isBaseInitializer()) IO["base"] = typeStr(QualType(I->getBaseClass(), 0));
				else if (I->isDelegatingInitializer()) IO["deleg"] = true;
				IO["w"] = I->isWritten();
				IO["init"] = add(I->getInit());
				IA.push_back(std::move(IO));
			}
			O["inits"] = std::move(IA);
		}
		O["body"] = add(Body);
		// CFG
		CFG::BuildOptions BO;
		BO.AddImplicitDtors = true;
		BO.AddTemporaryDtors = true;
		BO.AddInitializers = true;
		BO.AddEHEdges = true;
		BO.AddCXXDefaultInitExprInCtors = true;
		BO.setAllAlwaysAdd();
		std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt *>(Body), &Ctx, BO);
		if (G) {
			json::Array Blocks;
			for (const CFGBlock *B : *G) {
				json::Object BO2;
				BO2["b"] = (int64_t) B->getBlockID();
				json::Array El;
				for (const CFGElement &E : *B) {
					if (auto CS = E.getAs<CFGStmt>()) El.push_back(add(CS->getStmt()));
					else if (auto CI = E.getAs<CFGInitializer>()) {
						json::Object X; auto *I = CI->getInitializer();
						X["init"] = add(I->getInit());
						if (I->isAnyMemberInitializer() && I->getAnyMember()) X["m"] = qname(I->getAnyMember());
						El.push_back(std::move(X));
					} else if (auto AD = E.getAs<CFGAutomaticObjDtor>()) {
						json::Object X; X["dtor"] = varId(AD->getVarDecl()); X["t"] = typeId(AD->getVarDecl()->getType());
						El.push_back(std::move(X));
					} else if (auto TD = E.getAs<CFGTemporaryDtor>()) {
						json::Object X; X["tdtor"] = add(TD->getBindTemporaryExpr()); X["t"] = typeId(TD->getBindTemporaryExpr()->getType());
						El.push_back(std::move(X));
					} else if (auto DD = E.getAs<CFGDeleteDtor>()) {
						json::Object X; X["deldtor"] = add(DD->getDeleteExpr());
						El.push_back(std::move(X));
					} else if (auto MD = E.getAs<CFGMemberDtor>()) {
						json::Object X; X["mdtor"] = qname(MD->getFieldDecl());
						El.push_back(std::move(X));
					}
				}
				BO2["e"] = std::move(El);
				if (auto *T = B->getTerminatorStmt()) { BO2["t"] = add(T); if (auto *TC = B->getTerminatorCondition()) BO2["tc"] = add(TC); }
				if (auto *L = B->getLabel()) BO2["lab"] = add(L);
				if (auto *L = B->getLoopTarget()) BO2["loop"] = add(L);
				json::Array Su;
				for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
					if (const CFGBlock *R = It->getReachableBlock()) Su.push_back((int64_t) R->getBlockID());
					else Su.push_back(-1);
				}
				BO2["s"] = std::move(Su);
				if (B->hasNoReturnElement()) BO2["nr"] = true;
				Blocks.push_back(std::move(BO2));
			}
			json::Object GO;
			GO["entry"] = (int64_t) G->getEntry().getBlockID();
			GO["exit"] = (int64_t) G->getExit().getBlockID();
			GO["blocks"] = std::move(Blocks);
			O["cfg"] = std::move(GO);
		}
		json::Array NA;
		for (auto &N : St.NodeObjs) NA.push_back(std::move(N));
		O["nodes"] = std::move(NA);
		json::Array TA;
		for (auto &T : St.Types) TA.push_back(T);
		O["types"] = std::move(TA);
		std::vector<const LambdaExpr *> Ls = St.Lambdas;
		emitRec("F", Id, std::move(O));
		for (auto *LE : Ls) {
			LambdaParents[LE->getLambdaClass()->getCanonicalDecl()] = Id;
			if (auto *Op = LE->getCallOperator()) {
				if (auto *FT = Op->getDescribedFunctionTemplate()) {
					for (auto *Sp : FT->specializations()) dumpFunction(Sp, Id);
				} else dumpFunction(Op, Id);
			}
		}
		S = Old; CurId = OldId;
	}

	std::string category(QualType T) {
		T = T.getCanonicalType();
		if (T->isReferenceType()) return "ref";
		if (T->isPointerType()) return "ptr";
		if (T->isMemberPointerType()) return "mptr";
		if (T->isEnumeralType()) return "enum";
		if (T->isBooleanType()) return "bool";
		if (T->isIntegerType()) return "int";
		if (T->isFloatingType()) return "float";
		if (T->isArrayType()) return "array";
		if (auto *R = T->getAsCXXRecordDecl()) {
			if (!R->hasDefinition()) return "record";
			std::string N = qname(R);
			if (N == "std::atomic" || N == "std::__atomic_base") return "atomic";
			if (R->isAggregate() && R->isPOD()) return "pod";
			return "record";
		}
		return "other";
	}

	void dumpRecord(const CXXRecordDecl *R) {
		if (!R->isThisDeclarationADefinition() || R->isLambda() || !inRoots(R->getLocation())) return;
		if (R->isInjectedClassName()) return;
		std::string Id = usr(R);
		if (!Done.insert("C" + Id).second) return;
		FnState St; FnState *Old = S; S = &St;
		std::string OldId = CurId; CurId = Id;
		json::Object O;
		O["id"] = Id; O["qn"] = qname(R);
		O["dn"] = R->isDependentType() ? qname(R) : typeStr(Ctx.getRecordType(R));
		O["file"] = shortFile(R->getLocation()); O["line"] = (int64_t) lineOf(R->getLocation());
		bool Dep = R->isDependentType();
		if (Dep) O["dep"] = true;
		if (R->isUnion()) O["union"] = true;
		if (R->isAggregate()) O["aggr"] = true;
		if (isa<ClassTemplateSpecializationDecl>(R)) O["inst"] = true;
		json::Array FA;
		for (auto *F : R->fields()) {
			json::Object FO;
			FO["n"] = F->getNameAsString(); FO["m"] = qname(F); FO["ty"] = typeStr(F->getType());
			FO["tw"] = F->getType().getAsString(Policy);
			FO["line"] = (int64_t) lineOf(F->getLocation());
			FO["cat"] = category(F->getType());
			if (F->isMutable()) FO["mut"] = true;
			if (F->getType().isConstQualified()) FO["const"] = true;
			if (F->hasInClassInitializer()) FO["init"] = true;
			FO["access"] = accessOf(F);
			if (!Dep && F->hasInClassInitializer() && F->getInClassInitializer()) FO["inite"] = add(F->getInClassInitializer());
			FA.push_back(std::move(FO));
		}
		O["fields"] = std::move(FA);
		json::Array BA;
		for (auto &B : R->bases()) {
			json::Object BO;
			if (auto *BR = B.getType()->getAsCXXRecordDecl()) { BO["qn"] = qname(BR); BO["id"] = usr(BR); BO["t"] = typeStr(B.getType()); }
			else BO["t"] = typeStr(B.getType());
			BA.push_back(std::move(BO));
		}
		O["bases"] = std::move(BA);
		json::Array MA;
		auto addM = [&](const CXXMethodDecl *M) {
			json::Object MO;
			MO["n"] = M->getNameAsString(); MO["id"] = fid(M); MO["line"] = (int64_t) lineOf(M->getLocation());
			MO["access"] = accessOf(M);
			if (M->isVirtual()) MO["virt"] = true;
			if (M->isPureVirtual()) MO["pure"] = true;
			if (M->isDeleted()) MO["deleted"] = true;
			if (M->isDefaulted()) MO["defaulted"] = true;
			if (M->isImplicit()) MO["implicit"] = true;
			if (M->isUserProvided()) MO["up"] = true;
			if (M->isStatic()) MO["static"] = true;
			if (M->isConst()) MO["const"] = true;
			if (auto *C = dyn_cast<CXXConstructorDecl>(M)) { MO["kind"] = "ctor"; if (C->isCopyConstructor()) MO["copy"] = true; if (C->isMoveConstructor()) MO["move"] = true; if (C->isDefaultConstructor()) MO["defc"] = true; }
			else if (isa<CXXDestructorDecl>(M)) MO["kind"] = "dtor";
			else MO["kind"] = "method";
			if (M->isCopyAssignmentOperator()) MO["copya"] = true;
			if (M->isMoveAssignmentOperator()) MO["movea"] = true;
			json::Array Ov;
			for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
			if (!Ov.empty()) MO["over"] = std::move(Ov);
			json::Array PT; for (auto *P : M->parameters()) PT.push_back(typeStr(P->getType()));
			MO["pt"] = std::move(PT);
			MO["ret"] = typeStr(M->getReturnType());
			MO["body"] = M->hasBody();
			MA.push_back(std::move(MO));
		};
		for (auto *M : R->methods()) addM(M);
		for (auto *D : R->decls()) if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) if (auto *M = dyn_cast<CXXMethodDecl>(FT->getTemplatedDecl())) { json::Object MO; MO["n"] = M->getNameAsString(); MO["tmpl"] = true; MO["line"] = (int64_t) lineOf(M->getLocation()); MO["kind"] = isa<CXXConstructorDecl>(M) ? "ctor" : "method"; MO["access"] = accessOf(M); MA.push_back(std::move(MO)); }
		O["methods"] = std::move(MA);
		json::Array NA; for (auto &N : St.NodeObjs) NA.push_back(std::move(N));
		O["nodes"] = std::move(NA);
		json::Array TA; for (auto &T : St.Types) TA.push_back(T);
		O["types"] = std::move(TA);
		S = Old; CurId = OldId;
		emitRec("C", Id, std::move(O));
	}

	void dumpEnum(const EnumDecl *E) {
		if (!E->isThisDeclarationADefinition() || !inRoots(E->getLocation()) || E->isDependentType()) return;
		std::string Id = usr(E);
		if (!Done.insert("E" + Id).second) return;
		json::Object O;
		O["id"] = Id; O["qn"] = qname(E); O["file"] = shortFile(E->getLocation()); O["line"] = (int64_t) lineOf(E->getLocation());
		O["ut"] = typeStr(E->getIntegerType());
		json::Array A;
		for (auto *C : E->enumerators()) { json::Array P; P.push_back(C->getNameAsString()); P.push_back(C->getInitVal().getExtValue()); A.push_back(std::move(P)); }
		O["vals"] = std::move(A);
		emitRec("E", Id, std::move(O));
	}

	void dumpGlobal(const VarDecl *V) {
		if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRoots(V->getLocation()) || V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return;
		std::string Id = usr(V);
		if (V->getDefinition() && V->getDefinition() != V) return;
		if (!Done.insert("G" + Id).second) return;
		FnState St; FnState *Old = S; S = &St;
		std::string OldId = CurId; CurId = "G" + Id;
		json::Object O;
		O["id"] = Id; O["qn"] = qname(V); O["ty"] = typeStr(V->getType()); O["file"] = shortFile(V->getLocation()); O["line"] = (int64_t) lineOf(V->getLocation());
		if (V->getType().isConstQualified()) O["const"] = true;
		if (V->isConstexpr()) O["cexpr"] = true;
		if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
		if (V->isStaticDataMember()) { O["sdm"] = true; }
		if (V->getInit() && !V->getInit()->isValueDependent()) O["init"] = add(V->getInit());
		json::Array NA; for (auto &N : St.NodeObjs) NA.push_back(std::move(N));
		O["nodes"] = std::move(NA);
		json::Array TA; for (auto &T : St.Types) TA.push_back(T);
		O["types"] = std::move(TA);
		std::vector<const LambdaExpr *> Ls = St.Lambdas;
		S = Old; CurId = OldId;
		emitRec("G", Id, std::move(O));
		for (auto *LE : Ls) {
			LambdaParents[LE->getLambdaClass()->getCanonicalDecl()] = "G" + Id;
			if (auto *Op = LE->getCallOperator()) {
				if (auto *FT = Op->getDescribedFunctionTemplate()) { for (auto *Sp : FT->specializations()) dumpFunction(Sp, "G" + Id); }
				else dumpFunction(Op, "G" + Id);
			}
		}
	}
};

class Visitor : public RecursiveASTVisitor<Visitor> {
	Dumper &D;
public:
	explicit Visitor(Dumper &D) : D(D) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool VisitFunctionDecl(FunctionDecl *F) {
		if (auto *M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) return true;
		D.dumpFunction(F);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.dumpRecord(R); return true; }
	bool VisitEnumDecl(EnumDecl *E) { D.dumpEnum(E); return true; }
	bool VisitVarDecl(VarDecl *V) { D.dumpGlobal(V); return true; }
};

class Consumer : public ASTConsumer {
	CompilerInstance &CI;
public:
	explicit Consumer(CompilerInstance &CI) : CI(CI) {}
	void HandleTranslationUnit(ASTContext &Ctx) override {
		auto &SM = Ctx.getSourceManager();
		for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) *Out << "I\t" << It->first.getName() << "\t\n";
		// Force the exception specifications and defaulted members that are only computed on demand.
		if (CI.getDiagnostics().hasUnrecoverableErrorOccurred() && CI.getDiagnostics().hasFatalErrorOccurred()) { NumErrors += 1; return; }
		Dumper D(Ctx);
		Visitor V(D);
		V.TraverseDecl(Ctx.getTranslationUnitDecl());
		NumErrors += CI.getDiagnostics().getClient()->getNumErrors();
	}
};

class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
		return std::make_unique<Consumer>(CI);
	}
};

} // namespace

// extract OUT ROOT[,ROOT..] EXCLUDE[,EXCLUDE..] FILE -- compiler arguments
int main(int argc, char **argv) {
	if (argc < 6) { llvm::errs() << "usage\n"; return 64; }
	std::error_code EC;
	Out = std::make_unique<llvm::raw_fd_ostream>(argv[1], EC);
	if (EC) { llvm::errs() << EC.message() << "\n"; return 64; }
	auto split = [](std::string X) { std::vector<std::string> R; size_t P = 0; while (P <= X.size()) { auto Q = X.find(',', P); if (Q == std::string::npos) Q = X.size(); if (Q > P) R.push_back(X.substr(P, Q - P)); P = Q + 1; } return R; };
	Roots = split(argv[2]);
	Excludes = split(argv[3]);
	std::vector<std::string> Args;
	for (int I = 6; I < argc; ++I) Args.push_back(argv[I]);
	tooling::FixedCompilationDatabase DB(".", Args);
	tooling::ClangTool Tool(DB, {std::string(argv[4])});
	int RC = Tool.run(tooling::newFrontendActionFactory<Action>().get());
	Out->flush();
	return RC == 0 && NumErrors == 0 ? 0 : 3;
}
