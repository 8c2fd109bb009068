// gxt: dumps the resolved program of one translation unit as compact JSON for the rule engine.
// usage: gxt ROOT OUT.json -- clang-args... file
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string Root, OutPath;
static int64_t ival(const llvm::APSInt &v) { return v.isSigned() ? v.sextOrTrunc(64).getSExtValue() : (int64_t)v.zextOrTrunc(64).getZExtValue(); }

static std::string utf8(llvm::StringRef s) {
	std::string r;
	for (unsigned char c : s) {                 // latin-1 -> utf8, byte preserving
		if (c < 0x80) r += (char)c;
		else { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 0x3F)); }
	}
	return r;
}

struct Dumper : RecursiveASTVisitor<Dumper> {
	ASTContext &C; SourceManager &SM; PrintingPolicy PP;
	std::map<std::string,int> files, types; Array fileList, typeList;
	std::map<const Decl*,int> ids;
	Array functions, records, enums, globals, decls;
	std::set<const Decl*> seenFn, seenRec, seenEnum, seenVar;
	explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) { PP.SuppressTagKeyword = true; PP.SuppressScope=false; PP.AnonymousTagLocations=false; }
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }

	int id(const Decl *d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = ids.size(); ids[d] = n; return n; }
	int file(std::string f) {
		auto it = files.find(f); if (it != files.end()) return it->second;
		int n = files.size(); files[f] = n; fileList.push_back(f); return n;
	}
	int type(QualType t) {
		if (t.isNull()) return -1;
		std::string s = t.getAsString(PP), c = t.getCanonicalType().getAsString(PP);
		std::string key = s + "|" + c;
		auto it = types.find(key); if (it != types.end()) return it->second;
		int n = types.size(); types[key] = n;
		Object o; o["s"] = s; o["c"] = c;
		QualType ct = t.getCanonicalType().getNonReferenceType();
		if (!ct->isDependentType() && !ct->isIncompleteType() && !ct->isFunctionType() && !ct->isVoidType()) o["size"] = (int64_t)C.getTypeSizeInChars(ct).getQuantity();
		const char *k = "other";
		if (ct->isPointerType()||ct->isNullPtrType()) k = "ptr"; else if (ct->isBooleanType()) k = "bool"; else if (ct->isEnumeralType()) k = "enum";
		else if (ct->isCharType()) k = "char"; else if (ct->isIntegerType()) k = "int"; else if (ct->isRecordType()) k = "rec"; else if (ct->isFloatingType()) k = "float";
		else if (ct->isArrayType()) k = "arr"; else if (ct->isVoidType()) k = "void"; else if (ct->isFunctionType()) k = "fn";
		o["k"] = k;
		if (ct->isIntegerType()) o["u"] = ct->isUnsignedIntegerType() ;
		if (auto *ca = C.getAsConstantArrayType(ct)) o["n"] = (int64_t)ca->getSize().getZExtValue();
		if (t->isReferenceType()) o["ref"] = true;
		typeList.push_back(std::move(o)); return n;
	}
	bool inRoot(SourceLocation l, std::string *out = nullptr) {
		if (l.isInvalid()) return false;
		l = SM.getExpansionLoc(l);
		PresumedLoc p = SM.getPresumedLoc(l, false);
		if (p.isInvalid()) return false;
		llvm::SmallString<256> abs(p.getFilename());
		llvm::sys::fs::make_absolute(abs);
		llvm::SmallString<256> real; if (llvm::sys::fs::real_path(abs, real)) real = abs;
		if (!llvm::StringRef(real).starts_with(Root)) return false;
		if (out) *out = llvm::StringRef(real).substr(Root.size()).str();
		return true;
	}
	int64_t loc(SourceLocation l) {
		if (l.isInvalid()) return 0;
		l = SM.getExpansionLoc(l);
		std::string f; if (!inRoot(l, &f)) return 0;
		return (int64_t)file(f) * 100000 + SM.getExpansionLineNumber(l);
	}
	std::string macroName(SourceLocation l) {
		if (!l.isMacroID()) return "";
		return Lexer::getImmediateMacroName(l, SM, C.getLangOpts()).str();
	}
	std::string qname(const NamedDecl *d) { std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os, PP); os.flush();
		if (s.rfind("gen::",0)==0) s = s.substr(5); return s; }
	std::string fname(const FunctionDecl *fd) {
		std::string s = qname(fd);
		if (auto *args = fd->getTemplateSpecializationArgs()) {
			s += "<"; for (unsigned i = 0; i < args->size(); i++) { if (i) s += ","; std::string a; llvm::raw_string_ostream os(a); args->get(i).print(PP, os, true); os.flush(); s += a; } s += ">";
		}
		return s;
	}
	Value arr(llvm::ArrayRef<const Expr*> v) { Array a; for (auto *e : v) a.push_back(expr(e)); return a; }

	Object mk(const char *k, const Stmt *s) { Object o; o["k"] = k; o["l"] = loc(s->getBeginLoc()); return o; }

	Value expr(const Expr *e0) {
		if (!e0) return nullptr;
		const Expr *e = e0;
		// peel
		for (;;) {
			if (auto *p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto *p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
			if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto *p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
			if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
			if (auto *p = dyn_cast<ChooseExpr>(e)) { e = p->getChosenSubExpr(); continue; }
			if (auto *p = dyn_cast<GenericSelectionExpr>(e)) { if (p->isResultDependent()) break; e = p->getResultExpr(); continue; }
			if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
			if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
			break;
		}
		Object o;
		auto fin = [&](Object &&x) -> Value {
			x["t"] = type(e->getType());
			if (!x.get("l")) x["l"] = loc(e->getBeginLoc());
			std::string m = macroName(e->getBeginLoc()); if (!m.empty()) x["m"] = m;
			if (!x.get("cv") && !e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() && (e->getType()->isIntegralOrEnumerationType())) {
				Expr::EvalResult r; if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) x["cv"] = ival(r.Val.getInt());
			}
			return std::move(x);
		};
		if (auto *ic = dyn_cast<ImplicitCastExpr>(e)) {
			switch (ic->getCastKind()) {
				case CK_UserDefinedConversion: case CK_ConstructorConversion: return expr(ic->getSubExpr());
				case CK_NullToPointer: { o["k"] = "null"; return fin(std::move(o)); }
				case CK_LValueToRValue: { Value v = expr(ic->getSubExpr()); if (auto *vo = v.getAsObject()) if (!vo->get("cv")) { // propagate constexpr var values
						if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult r; if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) (*vo)["cv"] = ival(r.Val.getInt()); } }
					return v; }
				case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_BitCast: case CK_IntegralToPointer: case CK_PointerToIntegral: case CK_FloatingCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: {
					o["k"] = "icast"; o["ck"] = ic->getCastKindName(); o["e"] = expr(ic->getSubExpr()); return fin(std::move(o)); }
				default: return expr(ic->getSubExpr());
			}
		}
		if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
			if (auto *fc = dyn_cast<CXXFunctionalCastExpr>(x)) if (isa<CXXConstructExpr>(fc->getSubExpr()->IgnoreImplicit()) || isa<InitListExpr>(fc->getSubExpr()->IgnoreImplicit())) return expr(fc->getSubExpr());
			o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); return fin(std::move(o));
		}
		if (auto *x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "int"; o["cv"] = x->getValue().getBitWidth()<=64 ? (int64_t)x->getValue().getZExtValue() : 0; return fin(std::move(o)); }
		if (auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "char"; o["cv"] = (int64_t)x->getValue(); return fin(std::move(o)); }
		if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["cv"] = (int64_t)x->getValue(); return fin(std::move(o)); }
		if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return fin(std::move(o)); }
		if (auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "float"; o["v"] = x->getValueAsApproximateDouble(); return fin(std::move(o)); }
		if (auto *x = dyn_cast<StringLiteral>(e)) { o["k"] = "str"; o["v"] = x->getCharByteWidth()==1 ? utf8(x->getBytes()) : std::string("<wide>"); return fin(std::move(o)); }
		if (auto *x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = x->getFunctionName()? utf8(x->getFunctionName()->getBytes()) : ""; o["pre"] = true; return fin(std::move(o)); }
		if (auto *x = dyn_cast<DeclRefExpr>(e)) {
			const ValueDecl *d = x->getDecl();
			if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "enumc"; o["n"] = ec->getNameAsString(); o["cv"] = ival(ec->getInitVal()); return fin(std::move(o)); }
			if (auto *fd = dyn_cast<FunctionDecl>(d)) { o["k"] = "fn"; o["n"] = fname(fd); o["id"] = id(fd); return fin(std::move(o)); }
			o["k"] = "var"; o["n"] = d->getNameAsString(); o["id"] = id(d);
			if (auto *vd = dyn_cast<VarDecl>(d)) o["s"] = isa<ParmVarDecl>(vd) ? "p" : vd->isStaticLocal() ? "s" : vd->hasLocalStorage() ? "l" : "g";
			else o["s"] = "?";
			return fin(std::move(o));
		}
		if (auto *x = dyn_cast<MemberExpr>(e)) {
			const ValueDecl *d = x->getMemberDecl();
			if (auto *fd = dyn_cast<FunctionDecl>(d)) { o["k"] = "mfn"; o["n"] = fname(fd); o["id"] = id(fd); o["b"] = expr(x->getBase()); return fin(std::move(o)); }
			if (auto *fld = dyn_cast<FieldDecl>(d); fld && fld->isAnonymousStructOrUnion()) {
				// flatten anonymous aggregate access: a.<anon>.x == a.x
				Value b = expr(x->getBase()); if (x->isArrow()) { Object d2; d2["k"]="deref"; d2["e"]=std::move(b); d2["l"]=loc(e->getBeginLoc()); d2["t"]=type(x->getBase()->getType()->getPointeeType()); d2["arrow"]=true; return std::move(d2);} return b;
			}
			o["k"] = "mem"; o["n"] = d->getNameAsString(); o["a"] = x->isArrow(); o["b"] = expr(x->getBase()); o["l"] = loc(x->getMemberLoc());
			if (auto *fld = dyn_cast<FieldDecl>(d)) { o["r"] = qname(fld->getParent()); }
			else if (isa<VarDecl>(d)) { o["k"]="var"; o["id"]=id(d); o["s"]="g"; }
			return fin(std::move(o));
		}
		if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "idx"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return fin(std::move(o)); }
		if (auto *x = dyn_cast<UnaryOperator>(e)) {
			if (x->getOpcode() == UO_Deref) { o["k"] = "deref"; o["e"] = expr(x->getSubExpr()); return fin(std::move(o)); }
			if (x->getOpcode() == UO_AddrOf) { o["k"] = "addr"; o["e"] = expr(x->getSubExpr()); return fin(std::move(o)); }
			if (x->getOpcode() == UO_Extension) return expr(x->getSubExpr());
			o["k"] = "un"; o["o"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; o["e"] = expr(x->getSubExpr()); return fin(std::move(o));
		}
		if (auto *x = dyn_cast<BinaryOperator>(e)) { // includes CompoundAssign
			o["k"] = x->isAssignmentOp() ? "asg" : "bin"; o["o"] = x->getOpcodeStr().str(); o["x"] = expr(x->getLHS()); o["y"] = expr(x->getRHS()); o["l"] = loc(x->getOperatorLoc().isMacroID()? x->getBeginLoc(): x->getOperatorLoc()); return fin(std::move(o));
		}
		if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = expr(x->getCond()); o["x"] = expr(x->getTrueExpr()); o["y"] = expr(x->getFalseExpr()); return fin(std::move(o)); }
		if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
		if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "sizeof"; if (x->isArgumentType()) o["ty"] = type(x->getArgumentType()); else o["ty"] = type(x->getArgumentExpr()->getType()); return fin(std::move(o)); }
		if (auto *x = dyn_cast<OffsetOfExpr>(e)) { o["k"] = "offsetof"; return fin(std::move(o)); }
		if (auto *x = dyn_cast<VAArgExpr>(e)) { o["k"] = "vaarg"; o["e"] = expr(x->getSubExpr()); return fin(std::move(o)); }
		if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
			o["k"] = "call"; if (auto *fd = x->getDirectCallee()) { o["n"] = fname(fd); o["id"] = id(fd); if (isa<CXXMethodDecl>(fd)) o["meth"] = true; }
			o["op"] = true; Array a; for (auto *arg : x->arguments()) a.push_back(expr(arg)); o["a"] = std::move(a); return fin(std::move(o));
		}
		if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
			o["k"] = "call"; if (auto *fd = x->getMethodDecl()) { o["n"] = fname(fd); o["id"] = id(fd); o["meth"] = true; if (isa<CXXConversionDecl>(fd)) o["conv"] = true; }
			else { o["cx"] = expr(x->getCallee()); }
			Array a; a.push_back(expr(x->getImplicitObjectArgument())); for (auto *arg : x->arguments()) a.push_back(expr(arg)); o["a"] = std::move(a);
			if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { if (me->isArrow()) o["arrow"] = true; o["l"] = loc(me->getMemberLoc()); }
			return fin(std::move(o));
		}
		if (auto *x = dyn_cast<CallExpr>(e)) {
			o["k"] = "call"; if (auto *fd = x->getDirectCallee()) { o["n"] = fname(fd); o["id"] = id(fd); if (fd->isVariadic()) o["var"] = (int64_t)fd->getNumParams(); if (fd->isNoReturn()) o["nr"] = true; if (unsigned b = fd->getBuiltinID()) o["bi"] = (int64_t)b; }
			else o["cx"] = expr(x->getCallee());
			Array a; for (auto *arg : x->arguments()) a.push_back(expr(arg)); o["a"] = std::move(a); return fin(std::move(o));
		}
		if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
			auto *cd = x->getConstructor();
			if (cd->isCopyOrMoveConstructor() && x->getNumArgs() == 1) return expr(x->getArg(0));
			o["k"] = "ctor"; o["n"] = qname(cd->getParent()); o["id"] = id(cd); if (cd->isDefaultConstructor()) o["def"] = true; if (!cd->isUserProvided()) o["triv"] = true; if (x->requiresZeroInitialization()) o["zero"] = true;
			Array a; for (auto *arg : x->arguments()) a.push_back(expr(arg)); o["a"] = std::move(a); return fin(std::move(o));
		}
		if (auto *x = dyn_cast<InitListExpr>(e)) {
			const InitListExpr *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
			if (s->isTransparent() && s->getNumInits()==1) return expr(s->getInit(0));
			o["k"] = "init";
			QualType t = s->getType();
			Array a;
			if (auto *rt = t->getAsRecordDecl()) {
				o["r"] = qname(rt);
				Array names; unsigned i = 0;
				if (rt->isUnion()) { if (auto *f = s->getInitializedFieldInUnion()) names.push_back(f->getNameAsString()); for (unsigned k = 0; k < s->getNumInits(); k++) a.push_back(expr(s->getInit(k))); }
				else {
					if (auto *crd = dyn_cast<CXXRecordDecl>(rt)) for (auto &b : crd->bases()) { if (i < s->getNumInits()) { names.push_back("<base>"); a.push_back(expr(s->getInit(i++))); } }
					for (auto *f : rt->fields()) { if (f->isUnnamedBitfield()) continue; if (i >= s->getNumInits()) break; names.push_back(f->getNameAsString()); a.push_back(expr(s->getInit(i++))); }
				}
				o["fn"] = std::move(names);
			} else { for (unsigned k = 0; k < s->getNumInits(); k++) a.push_back(expr(s->getInit(k))); if (s->hasArrayFiller()) o["filler"] = true; }
			o["a"] = std::move(a); return fin(std::move(o));
		}
		if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; return fin(std::move(o)); }
		if (auto *x = dyn_cast<CompoundLiteralExpr>(e)) return expr(x->getInitializer());
		if (auto *x = dyn_cast<LambdaExpr>(e)) { o["k"] = "lambda"; o["body"] = stmt(x->getBody()); o["id"] = id(x->getCallOperator()); o["rt"] = type(x->getCallOperator()->getReturnType()); Array ps; for (auto *p : x->getCallOperator()->parameters()) ps.push_back(param(p)); o["ps"] = std::move(ps); return fin(std::move(o)); }
		if (auto *x = dyn_cast<StmtExpr>(e)) { o["k"] = "stmtexpr"; o["body"] = stmt(x->getSubStmt()); return fin(std::move(o)); }
		if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return fin(std::move(o)); }
		if (auto *x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; Array a; for (auto *p : x->placement_arguments()) a.push_back(expr(p)); o["a"] = std::move(a); o["e"] = x->getInitializer() ? expr(x->getInitializer()) : Value(nullptr); return fin(std::move(o)); }
		if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { return expr(x->getCommonExpr()); }
		o["k"] = "unk"; o["cls"] = e->getStmtClassName(); Array a; for (auto *c : e->children()) if (c) { if (auto *ce = dyn_cast<Expr>(c)) a.push_back(expr(ce)); else a.push_back(stmt(c)); } o["a"] = std::move(a);
		return fin(std::move(o));
	}

	Value param(const ParmVarDecl *p) { Object o; o["n"] = p->getNameAsString(); o["id"] = id(p); o["t"] = type(p->getType()); if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) o["d"] = expr(p->getDefaultArg()); return std::move(o); }

	Value var(const VarDecl *v) {
		Object o; o["n"] = v->getNameAsString(); o["id"] = id(v); o["t"] = type(v->getType()); o["l"] = loc(v->getLocation());
		if (v->isStaticLocal()) o["static"] = true;
		if (v->hasInit()) {
			o["i"] = expr(v->getInit());
			if (v->getInitStyle() != VarDecl::CInit) o["brace"] = true;
		}
		return std::move(o);
	}

	Value stmt(const Stmt *s) {
		if (!s) return nullptr;
		if (auto *e = dyn_cast<Expr>(s)) { Object o = mk("expr", s); o["e"] = expr(e); return std::move(o); }
		if (auto *x = dyn_cast<CompoundStmt>(s)) { Object o = mk("blk", s); Array a; for (auto *c : x->body()) a.push_back(stmt(c)); o["b"] = std::move(a); o["end"] = loc(x->getRBracLoc()); return std::move(o); }
		if (auto *x = dyn_cast<DeclStmt>(s)) { Object o = mk("decl", s); Array a; for (auto *d : x->decls()) { if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); } o["v"] = std::move(a); return std::move(o); }
		if (auto *x = dyn_cast<IfStmt>(s)) { Object o = mk("if", s); if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt()); o["c"] = expr(x->getCond()); o["x"] = stmt(x->getThen()); o["y"] = stmt(x->getElse()); return std::move(o); }
		if (auto *x = dyn_cast<SwitchStmt>(s)) { Object o = mk("switch", s); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return std::move(o); }
		if (auto *x = dyn_cast<CaseStmt>(s)) { Object o = mk("case", s); Expr::EvalResult r; if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, C)) o["v"] = ival(r.Val.getInt()); if (x->getRHS() && x->getRHS()->EvaluateAsInt(r, C)) o["v2"] = ival(r.Val.getInt()); o["s"] = stmt(x->getSubStmt()); return std::move(o); }
		if (auto *x = dyn_cast<DefaultStmt>(s)) { Object o = mk("default", s); o["s"] = stmt(x->getSubStmt()); return std::move(o); }
		if (auto *x = dyn_cast<WhileStmt>(s)) { Object o = mk("while", s); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return std::move(o); }
		if (auto *x = dyn_cast<DoStmt>(s)) { Object o = mk("do", s); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return std::move(o); }
		if (auto *x = dyn_cast<ForStmt>(s)) { Object o = mk("for", s); o["i"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["s"] = expr(x->getInc()); o["b"] = stmt(x->getBody()); return std::move(o); }
		if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { Object o = mk("for", s); Array pre; if (x->getRangeStmt()) pre.push_back(stmt(x->getRangeStmt())); if (x->getBeginStmt()) pre.push_back(stmt(x->getBeginStmt())); if (x->getEndStmt()) pre.push_back(stmt(x->getEndStmt())); Object pb; pb["k"]="blk"; pb["b"]=std::move(pre); pb["l"]=loc(x->getBeginLoc()); pb["noscope"]=true;
			o["i"] = std::move(pb); o["c"] = expr(x->getCond()); o["s"] = expr(x->getInc()); Array b; if (x->getLoopVarStmt()) b.push_back(stmt(x->getLoopVarStmt())); b.push_back(stmt(x->getBody())); Object bb; bb["k"]="blk"; bb["b"]=std::move(b); bb["l"]=loc(x->getBeginLoc()); o["b"]=std::move(bb); return std::move(o); }
		if (auto *x = dyn_cast<ReturnStmt>(s)) { Object o = mk("ret", s); o["e"] = expr(x->getRetValue()); return std::move(o); }
		if (isa<BreakStmt>(s)) return mk("break", s);
		if (isa<ContinueStmt>(s)) return mk("cont", s);
		if (auto *x = dyn_cast<GotoStmt>(s)) { Object o = mk("goto", s); o["n"] = x->getLabel()->getNameAsString(); return std::move(o); }
		if (auto *x = dyn_cast<LabelStmt>(s)) { Object o = mk("label", s); o["n"] = x->getDecl()->getNameAsString(); o["s"] = stmt(x->getSubStmt()); return std::move(o); }
		if (isa<NullStmt>(s)) return mk("nop", s);
		if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
		Object o = mk("unkstmt", s); o["cls"] = s->getStmtClassName(); Array a; for (auto *c : s->children()) a.push_back(stmt(c)); o["a"] = std::move(a); return std::move(o);
	}

	Object fnhead(const FunctionDecl *f) {
		Object o; o["n"] = fname(f); o["id"] = id(f); o["l"] = loc(f->getLocation()); o["t"] = type(f->getReturnType());
		Array ps; for (auto *p : f->parameters()) ps.push_back(param(p)); o["ps"] = std::move(ps);
		if (f->isVariadic()) o["var"] = true;
		if (f->isInlined()) o["inl"] = true;
		if (f->getStorageClass() == SC_Static) o["st"] = true;
		if (f->isDeleted()) o["del"] = true;
		if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["rec"] = qname(m->getParent()); if (m->isStatic()) o["smeth"] = true;
			if (isa<CXXConversionDecl>(m)) o["conv"] = true; if (isa<CXXConstructorDecl>(m)) o["isctor"] = true; }
		if (f->isOverloadedOperator()) o["oper"] = true;
		return o;
	}
	bool VisitFunctionDecl(FunctionDecl *f) {
		if (!inRoot(f->getLocation())) return true;
		if (f->isDependentContext() || f->isImplicit()) return true;
		if (f->doesThisDeclarationHaveABody() ) {
			if (f->isLateTemplateParsed()) return true;
			if (!seenFn.insert(f->getCanonicalDecl()).second) return true;
			if (isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda()) return true;
			Object o = fnhead(f);
			if (auto *cd = dyn_cast<CXXConstructorDecl>(f)) { Array a; for (auto *in : cd->inits()) { Object i; if (in->getMember()) i["n"] = in->getMember()->getNameAsString(); i["e"] = expr(in->getInit()); a.push_back(std::move(i)); } o["inits"] = std::move(a); }
			o["b"] = stmt(f->getBody()); o["end"] = loc(f->getBody()->getEndLoc());
			functions.push_back(std::move(o));
		} else {
			Object o = fnhead(f); if (f->isDefined()) o["def"] = true; if (f->isDefaulted()) o["dflt"]=true; decls.push_back(std::move(o));
		}
		return true;
	}
	bool VisitVarDecl(VarDecl *v) {
		if (isa<ParmVarDecl>(v) || !v->hasGlobalStorage()) return true;
		if (!inRoot(v->getLocation()) || v->isImplicit()) return true;
		if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true;
		if (v->hasInit() && v->getInit()->isValueDependent()) return true;
		Value vv = var(v); auto *o = vv.getAsObject(); (*o)["q"] = qname(v); (*o)["defn"] = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly; 
		if (v->isStaticLocal()) if (auto *fd = dyn_cast<FunctionDecl>(v->getDeclContext())) (*o)["in"] = fname(fd);
		globals.push_back(std::move(vv));
		return true;
	}
	bool VisitEnumDecl(EnumDecl *d) {
		if (!d->isThisDeclarationADefinition() || !inRoot(d->getLocation()) || d->isDependentContext()) return true;
		Object o; o["n"] = qname(d); if (d->getName().empty()) { if (auto *td = d->getTypedefNameForAnonDecl()) o["n"] = qname(td); }
		o["l"] = loc(d->getLocation()); Array a; for (auto *e : d->enumerators()) { Array p; p.push_back(e->getNameAsString()); p.push_back(ival(e->getInitVal())); p.push_back(loc(e->getLocation())); a.push_back(std::move(p)); } o["e"] = std::move(a); o["size"] = (int64_t)C.getTypeSizeInChars(C.getEnumType(d)).getQuantity();
		enums.push_back(std::move(o)); return true;
	}
	void fieldsOf(const RecordDecl *d, int64_t base, Array &out, bool inUnion) {
		const ASTRecordLayout &L = C.getASTRecordLayout(d);
		for (auto *f : d->fields()) {
			int64_t off = base + L.getFieldOffset(f->getFieldIndex()) / 8;
			if (f->isAnonymousStructOrUnion()) { fieldsOf(f->getType()->getAsRecordDecl(), off, out, inUnion || f->getType()->getAsRecordDecl()->isUnion()); continue; }
			Object o; o["n"] = f->getNameAsString(); o["off"] = off; o["t"] = type(f->getType()); o["l"] = loc(f->getLocation()); o["size"] = (int64_t)C.getTypeSizeInChars(f->getType()).getQuantity(); if (inUnion || d->isUnion()) o["un"] = true;
			out.push_back(std::move(o));
		}
	}
	bool VisitRecordDecl(RecordDecl *d) {
		if (!d->isThisDeclarationADefinition() || !inRoot(d->getLocation()) || d->isDependentContext() || d->isInvalidDecl()) return true;
		if (auto *c = dyn_cast<CXXRecordDecl>(d)) if (c->isLambda() || c->isInjectedClassName()) return true;
		if (d->isAnonymousStructOrUnion()) return true;
		if (!d->isCompleteDefinition()) return true;
		std::string n = qname(d); if (d->getName().empty()) { if (auto *td = d->getTypedefNameForAnonDecl()) n = qname(td); }
		if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(d)) { n = C.getRecordType(d).getCanonicalType().getAsString(PP); if (n.rfind("gen::",0)==0) n=n.substr(5); }
		Object o; o["n"] = n; o["l"] = loc(d->getLocation()); o["size"] = (int64_t)C.getASTRecordLayout(d).getSize().getQuantity();
		if (auto *c = dyn_cast<CXXRecordDecl>(d)) { Array b; for (auto &bs : c->bases()) if (auto *bd = bs.getType()->getAsCXXRecordDecl()) b.push_back(qname(bd)); o["bases"] = std::move(b); }
		Array f; fieldsOf(d, 0, f, false); o["f"] = std::move(f); if (d->isUnion()) o["union"]=true;
		records.push_back(std::move(o)); return true;
	}
	void run() {
		TraverseDecl(C.getTranslationUnitDecl());
		Object top; top["files"] = std::move(fileList); top["types"] = std::move(typeList); top["functions"] = std::move(functions); top["decls"] = std::move(decls); top["records"] = std::move(records); top["enums"] = std::move(enums); top["globals"] = std::move(globals);
		std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec); os << Value(std::move(top)); os.flush();
	}
};

struct Consumer : ASTConsumer {
	CompilerInstance &CI; Consumer(CompilerInstance &c) : CI(c) {}
	void HandleTranslationUnit(ASTContext &C) override { if (CI.getDiagnostics().hasErrorOccurred()) return; Dumper d(C); d.run(); }
};
struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, char **argv) {
	if (argc < 5) { llvm::errs() << "usage: gxt ROOT OUT -- args file\n"; return 2; }
	Root = argv[1]; if (Root.back() != '/') Root += '/'; OutPath = argv[2];
	std::vector<std::string> args; args.push_back("clang++"); args.push_back("-fsyntax-only");
	for (int i = 4; i < argc; i++) args.push_back(argv[i]);
	llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
	tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
	return inv.run() ? 0 : 1;
}
