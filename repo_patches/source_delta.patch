From b1b09a29c626930118f3069b65d67b927198272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 01/58] fix: correct text/length of protected access and
 invalid markers in lookup tables

---
 base/components/parser_types.hpp | 2 +-
 base/components/types.hpp        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 2393945..3bf7f27 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -159,7 +159,7 @@ Str macrotype_to_str( MacroType type )
 		{ "Case_Statement",   sizeof("Case_Statement")   - 1 },
 	};
 	local_persist
-	Str invalid = { "Invalid", sizeof("Invalid") };
+	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
 	if ( type > MT_Case_Statement )
 		return invalid;
 
diff --git a/base/components/types.hpp b/base/components/types.hpp
index 18762ea..77cf9cf 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -50,7 +50,7 @@ Str access_spec_to_str( AccessSpec type )
 	Str lookup[ (u32)AccessSpec_Num_AccessSpec ] = {
 		{ "",        sizeof( "" )        - 1 },
 		{ "private", sizeof("prviate")   - 1 },
-		{ "private", sizeof("protected") - 1 },
+		{ "protected", sizeof("protected") - 1 },
 		{ "public",  sizeof("public")    - 1 },
 	};
 
@@ -107,7 +107,7 @@ Str module_flag_to_str( ModuleFlag flag )
 	};
 
 	local_persist
-	Str invalid_flag = { "invalid", sizeof("invalid") };
+	Str invalid_flag = { "invalid", sizeof("invalid") - 1 };
 	if ( flag > ModuleFlag_Import )
 		return invalid_flag;
 
-- 
2.43.0


From 8297964ba46e5a247950af00d0a88419322fceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 02/58] fix: balance the parser scope stack on failure exits

---
 base/components/interface.parsing.cpp |  7 ++-----
 base/components/parser.cpp            | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d5f4bef..d2fb5c3 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -31,6 +31,8 @@ CodeConstructor parse_constructor( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
+	_ctx->parser.Tokens = toks;
+
 	// TODO(Ed): Constructors can have prefix attributes
 
 	CodeSpecifiers specifiers = NullCode;
@@ -58,7 +60,6 @@ CodeConstructor parse_constructor( Str def )
 
 			default :
 				log_failure( "Invalid specifier %s for variable\n%S", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
-				parser_pop(& _ctx->parser);
 				return InvalidCode;
 		}
 
@@ -77,7 +78,6 @@ CodeConstructor parse_constructor( Str def )
 		// <specifiers> ...
 	}
 
-	_ctx->parser.Tokens         = toks;
 	CodeConstructor result = parser_parse_constructor( specifiers );
 	return result;
 }
@@ -119,10 +119,7 @@ CodeEnum parse_enum( Str def )
 
 	TokArray toks = lex( def );
 	if ( toks.Arr == nullptr )
-	{
-		parser_pop(& _ctx->parser);
 		return InvalidCode;
-	}
 
 	_ctx->parser.Tokens = toks;
 	return parser_parse_enum( parser_not_inplace_def);
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b064e04..531f9c9 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -138,19 +138,17 @@ void parser_deinit()
 
 #pragma region Helper Macros
 
-#define check_parse_args( def ) _check_parse_args(def, stringize(_func_) )
+#define check_parse_args( def ) do { if ( ! _check_parse_args(def, stringize(_func_) ) ) return InvalidCode; } while (0)
 bool _check_parse_args( Str def, char const* func_name )
 {
 	if ( def.Len <= 0 )
 	{
 		log_failure( c_str_fmt_buf("gen::%s: length must greater than 0", func_name) );
-		parser_pop(& _ctx->parser);
 		return false;
 	}
 	if ( def.Ptr == nullptr )
 	{
 		log_failure( c_str_fmt_buf("gen::%s: def was null", func_name) );
-		parser_pop(& _ctx->parser);
 		return false;
 	}
 	return true;
@@ -984,6 +982,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 				if ( ! tok_is_attribute(currtok))
 				{
 					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
 			}
@@ -1346,7 +1345,6 @@ Code parse_assignment_expression()
 	if ( currtok.Type == Tok_Statement_End && currtok.Type != Tok_Comma )
 	{
 		log_failure( "Expected expression after assignment operator\n%s", parser_to_strbuilder(_ctx->parser) );
-		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
 
@@ -1593,11 +1591,11 @@ Code parse_function_body()
 internal neverinline
 CodeBody parse_global_nspace( CodeType which )
 {
-	push_scope();
-
 	if ( which != CT_Namespace_Body && which != CT_Global_Body && which != CT_Export_Body && which != CT_Extern_Linkage_Body )
 		return InvalidCode;
 
+	push_scope();
+
 	if ( which != CT_Global_Body )
 		eat( Tok_BraceCurly_Open );
 		// {
@@ -1760,6 +1758,7 @@ CodeBody parse_global_nspace( CodeType which )
 			case Tok_Module_Import: {
 				// import ...
 				log_failure( "gen::%s: This function is not implemented" );
+				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
 			break;
@@ -1769,6 +1768,7 @@ CodeBody parse_global_nspace( CodeType which )
 				if (tok_is_attribute(currtok))
 				{
 					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
 			}
@@ -3048,6 +3048,7 @@ Code parse_simple_preprocess( TokType which )
 	Macro* macro = lookup_macro( full_macro.Text );
 	if ( which != Tok_Preprocess_Unsupported && macro == nullptr ) {
 		log_failure("Expected the macro %S to be registered\n%S", full_macro,  parser_to_strbuilder(_ctx->parser));
+		parser_pop(& _ctx->parser);
 		return NullCode;
 	}
 
@@ -5641,8 +5642,10 @@ CodeVar parser_parse_variable()
 	CodeTypename type = parser_parse_type(parser_not_from_template, nullptr);
 	// <ModuleFlags> <Attributes> <Specifiers> <ValueType>
 
-	if ( cast(Code, type) == Code_Invalid )
+	if ( cast(Code, type) == Code_Invalid ) {
+		parser_pop(& _ctx->parser);
 		return InvalidCode;
+	}
 
 	_ctx->parser.Scope->Name = parse_identifier(nullptr).Text;
 	// <ModuleFlags> <Attributes> <Specifiers> <ValueType> <Name>
-- 
2.43.0


From b3c583ea803a954518e1b8762279cd71abe3c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 03/58] fix: supply formatting calls the arguments their
 formats consume

---
 base/components/ast.cpp                       |   4 +-
 base/components/code_serialization.cpp        |  28 ++--
 base/components/inlines.hpp                   |   2 +-
 base/components/interface.parsing.cpp         |   2 +-
 base/components/interface.upfront.cpp         | 152 ++++++++----------
 base/components/lexer.cpp                     |  18 +--
 base/components/parser.cpp                    |  46 +++---
 base/dependencies/debug.cpp                   |   2 +-
 base/dependencies/debug.hpp                   |   2 +-
 base/dependencies/parsing.cpp                 |   2 +-
 base/helpers/base_codegen.hpp                 |   6 +-
 gen_c_library/components/containers.array.hpp |   4 +-
 .../components/containers.hashtable.hpp       |  12 +-
 13 files changed, 135 insertions(+), 145 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d8042b5..d974d64 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -278,7 +278,7 @@ Str code_debug_str(Code self)
 			while ( left-- )
 			{
 				Str spec = spec_to_str( self->ArrSpecs[idx] );
-				strbuilder_append_fmt( result, "%.*s, ", spec.Len, spec.Ptr );
+				strbuilder_append_fmt( result, "%S, ", spec );
 				idx++;
 			}
 			strbuilder_append_fmt( result, "\n\tNextSpecs: %S", self->NextSpecs ? code_debug_str(self->NextSpecs) : txt("Null") );
@@ -931,6 +931,8 @@ bool code_is_equal( Code self, Code other )
 									"AST  : %S\n"
 									"Other: %S\n"
 									"For ast member: %S\n"
+								, code_debug_str(self)
+								, code_debug_str(other)
 								, code_debug_str(curr)
 							);
 
diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9ec168b..7feb17d 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -158,7 +158,7 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 	if ( self->ParentType )
 	{
 		Str access_level = access_spec_to_str( self->ParentAccess );
-		strbuilder_append_fmt( result, " : %S %SB", self->Name, access_level, typename_to_strbuilder(self->ParentType) );
+		strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
 
 		CodeTypename interface = cast(CodeTypename, self->ParentType->Next);
 		if ( interface )
@@ -475,7 +475,7 @@ void fn_to_strbuilder_def(CodeFn self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 
 				prefix_specs = true;
 			}
@@ -504,7 +504,7 @@ void fn_to_strbuilder_def(CodeFn self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
 	}
@@ -534,7 +534,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) || ! ( * spec != Spec_Pure) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 
 				prefix_specs = true;
 			}
@@ -565,7 +565,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
 
@@ -639,7 +639,7 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
 	}
@@ -665,7 +665,7 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
 	}
@@ -692,7 +692,7 @@ void code_op_to_strbuilder_fwd(CodeOperator self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
 	}
@@ -717,7 +717,7 @@ void code_op_to_strbuilder_fwd(CodeOperator self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
 	}
@@ -755,7 +755,7 @@ void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%S ", spec_str );
 			}
 		}
 
@@ -769,7 +769,7 @@ void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
 
@@ -794,7 +794,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%S ", spec_str );
 			}
 		}
 
@@ -805,7 +805,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
 
@@ -817,7 +817,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 	}
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "operator %SB();  %SB", typename_to_strbuilder(self->ValueType) );
+		strbuilder_append_fmt( result, "operator %SB();  %S", typename_to_strbuilder(self->ValueType), self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "operator %SB();\n", typename_to_strbuilder(self->ValueType) );
 }
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5bf6bf5..b05e798 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -298,7 +298,7 @@ void using_to_strbuilder_ns(CodeUsing self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "using namespace $S;  %S", self->Name, self->InlineCmt->Content );
+		strbuilder_append_fmt( result, "using namespace %S;  %S", self->Name, self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "using namespace %S;\n", self->Name );
 }
diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d2fb5c3..741572d 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -59,7 +59,7 @@ CodeConstructor parse_constructor( Str def )
 				break;
 
 			default :
-				log_failure( "Invalid specifier %s for variable\n%S", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Invalid specifier %S for variable\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
 				return InvalidCode;
 		}
 
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 94af5f7..f0b177f 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -172,18 +172,6 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					return OpValResult_Fail;
 				}
 
-				if ( code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
-				{
-					log_failure("gen::def_operator: "
-						"operator %S is non-member symbol yet first paramter does not equal return type\n"
-						"param type: %S\n"
-						"return type: %S\n"
-						, code_debug_str((Code)params_code)
-						, code_debug_str((Code)ret_type)
-					);
-					return OpValResult_Fail;
-				}
-
 				if ( params_code->NumEntries > 1 )
 				{
 					log_failure("gen::def_operator: operator %S may not have more than one parameter - param count: %d"
@@ -380,11 +368,11 @@ forceinline
 bool name__check( char const* context, Str name )
 {
 	if ( name.Len <= 0 ) {
-		log_failure( "gen::%s: Invalid name length provided - %d",  name.Len );
+		log_failure( "gen::%s: Invalid name length provided - %d", context, scast(s32, name.Len) );
 		return false;
 	}
 	if ( name.Ptr == nullptr ) {
-		log_failure( "gen::%s: name is null" );
+		log_failure( "gen::%s: name is null", context );
 		return false;
 	}
 	return true;
@@ -476,7 +464,7 @@ CodeComment def_comment( Str content )
 CodeConstructor def_constructor( Opts_def_constructor p )
 {
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure("gen::def_constructor: params must be of Parameters type - %s", code_debug_str((Code)p.params));
+		log_failure("gen::def_constructor: params must be of Parameters type - %S", code_debug_str((Code)p.params));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -496,7 +484,7 @@ CodeConstructor def_constructor( Opts_def_constructor p )
 			break;
 
 			default:
-				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -517,12 +505,12 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && ( p.parent->Type != CT_Class && p.parent->Type != CT_Struct && p.parent->Type != CT_Typename && p.parent->Type != CT_Untyped ) ) {
-		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -544,7 +532,7 @@ CodeClass def_class( Str name, Opts_def_struct p )
 			break;
 
 			default:
-				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -588,7 +576,7 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 CodeDestructor def_destructor( Opts_def_destructor p )
 {
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -605,7 +593,7 @@ CodeDestructor def_destructor( Opts_def_destructor p )
 			break;
 
 			default:
-				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -626,12 +614,12 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 		return InvalidCode;
 	}
 	if ( p.type && p.type->Type != CT_Typename ) {
-		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %s", code_debug_str(p.type) );
+		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %S", code_debug_str(p.type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -649,7 +637,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 			break;
 
 			default:
-				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %s", code_debug_str(p.body));
+				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -701,7 +689,7 @@ CodeExtern def_extern_link( Str name, CodeBody body )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Extern_Linkage_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -732,7 +720,7 @@ CodeFriend def_friend( Code declaration )
 		break;
 
 		default:
-			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %s", code_debug_str(declaration));
+			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %S", code_debug_str(declaration));
 			return InvalidCode;
 	}
 	CodeFriend
@@ -749,22 +737,22 @@ CodeFn def_function( Str name, Opts_def_function p )
 		return InvalidCode;
 	}
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure( "gen::def_function: params was not a `Parameters` type: %s", code_debug_str(p.params) );
+		log_failure( "gen::def_function: params was not a `Parameters` type: %S", code_debug_str(p.params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.ret_type && p.ret_type->Type != CT_Typename ) {
-		log_failure( "gen::def_function: ret_type was not a Typename: %s", code_debug_str(p.ret_type) );
+		log_failure( "gen::def_function: ret_type was not a Typename: %S", code_debug_str(p.ret_type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specs && p.specs-> Type != CT_Specifiers ) {
-		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %s", code_debug_str(p.specs) );
+		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %S", code_debug_str(p.specs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attrs && p.attrs->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %s", code_debug_str(p.attrs) );
+		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %S", code_debug_str(p.attrs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -784,7 +772,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 
 			default:
 			{
-				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				return InvalidCode;
 			}
 		}
@@ -805,13 +793,13 @@ CodeFn def_function( Str name, Opts_def_function p )
 CodeInclude def_include( Str path, Opts_def_include p )
 {
 	if ( path.Len <= 0 || path.Ptr == nullptr ) {
-		log_failure( "gen::def_include: Invalid path provided - %d" );
+		log_failure( "gen::def_include: Invalid path provided - %S", path );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	StrBuilder content = p.foreign ?
-			strbuilder_fmt_buf( _ctx->Allocator_Temp, "<%.*s>",   path.Len, path.Ptr )
-		:	strbuilder_fmt_buf( _ctx->Allocator_Temp, "\"%.*s\"", path.Len, path.Ptr );
+			strbuilder_fmt_buf( _ctx->Allocator_Temp, "<%S>",   path )
+		:	strbuilder_fmt_buf( _ctx->Allocator_Temp, "\"%S\"", path );
 
 	CodeInclude
 	result          = (CodeInclude) make_code();
@@ -846,7 +834,7 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 		return InvalidCode;
 	}
 	if ( body && body->Type != CT_Namespace_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_namespace: body is not of namespace or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_namespace: body is not of namespace or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -862,12 +850,12 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -881,9 +869,9 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 
 	Str op_str = operator_to_str( op );
 	if ( nspace.Len > 0 )
-		name = c_str_fmt_buf( "%.*soperator %.*s", nspace.Len, nspace.Ptr, op_str.Len, op_str.Ptr );
+		name = c_str_fmt_buf( "%Soperator %S", nspace, op_str );
 	else
-		name = c_str_fmt_buf( "operator %.*s", op_str.Len, op_str.Ptr );
+		name = c_str_fmt_buf( "operator %S", op_str );
 
 	Str name_resolved = { name, c_str_len(name) };
 
@@ -903,7 +891,7 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 
 			default:
 			{
-				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				GEN_DEBUG_TRAP();
 				return InvalidCode;
 			}
@@ -933,7 +921,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_operator_cast: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_operator_cast: type is not a typename - %S", code_debug_str(type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -944,7 +932,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		result->Type = CT_Operator_Cast;
 
 		if ( p.body->Type != CT_Function_Body && p.body->Type != CT_Execution ) {
-			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %s", code_debug_str(p.body) );
+			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %S", code_debug_str(p.body) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -966,11 +954,11 @@ CodeParams def_param( CodeTypename type, Str name, Opts_def_param p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_param: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_param: type is not a typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped ) {
-		log_failure( "gen::def_param: value is not untyped - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_param: value is not untyped - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeParams
@@ -1037,17 +1025,17 @@ CodeSpecifiers def_specifier( Specifier spec )
 CodeStruct def_struct( Str name, Opts_def_struct p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %s", code_debug_str(cast(Code, p.attributes)) );
+		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %S", code_debug_str(cast(Code, p.attributes)) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && p.parent->Type != CT_Typename ) {
-		log_failure( "gen::def_struct: parent was not a `Struct` type - %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_struct: parent was not a `Struct` type - %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.body && p.body->Type != CT_Struct_Body ) {
-		log_failure( "gen::def_struct: body was not a Struct_Body type - %s", code_debug_str(p.body) );
+		log_failure( "gen::def_struct: body was not a Struct_Body type - %S", code_debug_str(p.body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1083,7 +1071,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		return InvalidCode;
 	}
 	if ( params && params->Type != CT_Parameters ){
-		log_failure( "gen::def_template: params is not of parameters type - %s", code_debug_str(params) );
+		log_failure( "gen::def_template: params is not of parameters type - %S", code_debug_str(params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1097,7 +1085,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		break;
 
 		default:
-			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %s", code_debug_str(declaration) );
+			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %S", code_debug_str(declaration) );
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
@@ -1118,17 +1106,17 @@ CodeTypename def_type( Str name, Opts_def_type p )
 	CodeSpecifiers specifiers = p.specifiers;
 	CodeAttributes attributes = p.attributes;
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_type: attributes is not of attributes type - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_type: attributes is not of attributes type - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_type: specifiers is not of specifiers type - %s", code_debug_str((Code)p.specifiers) );
+		log_failure( "gen::def_type: specifiers is not of specifiers type - %S", code_debug_str((Code)p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.array_expr && p.array_expr->Type != CT_Untyped ) {
-		log_failure( "gen::def_type: arrayexpr is not of untyped type - %s", code_debug_str((Code)p.array_expr) );
+		log_failure( "gen::def_type: arrayexpr is not of untyped type - %S", code_debug_str((Code)p.array_expr) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1164,12 +1152,12 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		case CT_Typename:
 			break;
 		default:
-			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %s", code_debug_str((Code)type) );
+			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %S", code_debug_str((Code)type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1191,7 +1179,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	if ( name.Len <= 0  )
 	{
 		if (type->Type != CT_Untyped) {
-			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %s", code_debug_str(type) );
+			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %S", code_debug_str(type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -1213,12 +1201,12 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Union_Body ) {
-		log_failure( "gen::def_union: body was not a Union_Body type - %s", code_debug_str(body) );
+		log_failure( "gen::def_union: body was not a Union_Body type - %S", code_debug_str(body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1247,7 +1235,7 @@ CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1282,22 +1270,22 @@ CodeVar def_variable( CodeTypename type, Str name, Opts_def_variable p )
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes )
 	{
-		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %S", code_debug_str(p.attributes) );
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers )
 	{
-		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %S", code_debug_str(p.specifiers) );
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename )
 	{
-		log_failure( "gen::def_variable: type was not a Typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_variable: type was not a Typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped )
 	{
-		log_failure( "gen::def_variable: value was not a `Untyped` type - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_variable: value was not a `Untyped` type - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeVar
@@ -1357,7 +1345,7 @@ CodeBody def_class_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1389,7 +1377,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1444,7 +1432,7 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		return InvalidCode;                                                                                                                       \
 	}                                                                                                                                             \
 	if (current->Type != CT_Parameters_Define ) {                                                                                                 \
-		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
+		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
 	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
@@ -1482,7 +1470,7 @@ CodeBody def_enum_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1508,7 +1496,7 @@ CodeBody def_enum_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1540,7 +1528,7 @@ CodeBody def_export_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1572,7 +1560,7 @@ CodeBody def_export_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1606,7 +1594,7 @@ CodeBody def_extern_link_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1639,7 +1627,7 @@ CodeBody def_extern_link_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1673,7 +1661,7 @@ CodeBody def_function_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1705,7 +1693,7 @@ CodeBody def_function_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1744,7 +1732,7 @@ CodeBody def_global_body( s32 num, ... )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1780,7 +1768,7 @@ CodeBody def_global_body_arr( s32 num, Code* codes )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1815,7 +1803,7 @@ CodeBody def_namespace_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1847,7 +1835,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default: break;
@@ -1901,7 +1889,7 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		return InvalidCode;                                                                                            \
 	}                                                                                                                  \
 	if (current->Type != CT_Parameters ) {                                                                             \
-		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
+		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
 	CodeParams current = (CodeParams)code_duplicate(* codes);
@@ -1992,7 +1980,7 @@ CodeBody def_struct_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -2024,7 +2012,7 @@ CodeBody def_struct_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default:
@@ -2056,7 +2044,7 @@ CodeBody def_union_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -2082,7 +2070,7 @@ CodeBody def_union_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f501f70..703e9e0 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -9,10 +9,10 @@ StrBuilder tok_to_strbuilder(Token tok)
 	StrBuilder result   = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(4) );
 	Str        type_str = toktype_to_str( tok.Type );
 
-	strbuilder_append_fmt( & result, "Line: %d Column: %d, Type: %.*s Content: %.*s"
+	strbuilder_append_fmt( & result, "Line: %d Column: %d, Type: %S Content: %S"
 		, tok.Line, tok.Column
-		, type_str.Len, type_str.Ptr
-		, tok.Text.Len, tok.Text.Ptr
+		, type_str
+		, tok.Text
 	);
 	return result;
 }
@@ -320,7 +320,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
 								" in preprocessor directive (%d, %d)\n%.100s"
 						, (* ctx->scanner), ctx->line, ctx->column
-						, ctx->token.Line, ctx->token.Column, ctx->token.Text );
+						, ctx->token.Line, ctx->token.Column, ctx->token.Text.Ptr );
 					break;
 				}
 			}
@@ -379,7 +379,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 
 		if ( (* ctx->scanner) != '"' && (* ctx->scanner) != '<' )
 		{
-			StrBuilder directive_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 80, ctx->left + preprocess_content.Text.Len ), ctx->token.Text.Ptr );
+			StrBuilder directive_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", scast( s32, min( 80, ctx->left + preprocess_content.Text.Len )), ctx->token.Text.Ptr );
 
 			log_failure( "gen::Parser::lex: Expected '\"' or '<' after #include, not '%c' (%d, %d)\n%s"
 				, (* ctx->scanner)
@@ -447,7 +447,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			else
 			{
 				StrBuilder directive_str = strbuilder_make_length( _ctx->Allocator_Temp, ctx->token.Text.Ptr, ctx->token.Text.Len );
-				StrBuilder content_str   = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 400, ctx->left + preprocess_content.Text.Len ), preprocess_content.Text.Ptr );
+				StrBuilder content_str   = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", scast( s32, min( 400, ctx->left + preprocess_content.Text.Len )), preprocess_content.Text.Ptr );
 
 				log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
 							" in preprocessor directive '%s' (%d, %d)\n%s"
@@ -698,7 +698,7 @@ TokArray lex( Str content )
 					}
 					else
 					{
-						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%s", c.scanner, min( 100, c.left ) );
+						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", scast( s32, min( 100, c.left )), c.scanner );
 
 						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
 					}
@@ -1247,10 +1247,10 @@ TokArray lex( Str content )
 			log_fmt("\n%d\n", start);
 			for ( s32 idx = start; idx < array_num(_ctx->Lexer_Tokens); idx++ )
 			{
-				log_fmt( "Token %d Type: %s : %.*s\n"
+				log_fmt( "Token %d Type: %s : %S\n"
 					, idx
 					, toktype_to_str( _ctx->Lexer_Tokens[ idx ].Type ).Ptr
-					, _ctx->Lexer_Tokens[ idx ].Text.Len, _ctx->Lexer_Tokens[ idx ].Text.Ptr
+					, _ctx->Lexer_Tokens[ idx ].Text
 				);
 			}
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 531f9c9..0555b52 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -56,7 +56,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	StrBuilder line_from_err = strbuilder_make_str( _ctx->Allocator_Temp, err_str );
 
 	if ( length_from_err < 100 )
-		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, length_from_err, '^' );
+		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, scast( s32, length_from_err ), '^' );
 	else
 		strbuilder_append_fmt(& result, "\t(%d, %d)\n", last_valid.Line, last_valid.Column );
 
@@ -65,7 +65,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	do
 	{
 		if ( curr_scope->Name.Ptr ) {
-			strbuilder_append_fmt(& result, "\t%d: %s, AST Name: %.*s\n", level, curr_scope->ProcName.Ptr, curr_scope->Name.Len, curr_scope->Name.Ptr );
+			strbuilder_append_fmt(& result, "\t%d: %s, AST Name: %S\n", level, curr_scope->ProcName.Ptr, curr_scope->Name );
 		}
 		else {
 			strbuilder_append_fmt(& result, "\t%d: %s\n", level, curr_scope->ProcName.Ptr );
@@ -104,9 +104,9 @@ bool lex__eat(TokArray* self, TokType type )
 	if ( not_accepted )
 	{
 		Token tok = * lex_current( self, lex_skip_formatting );
-		log_failure( "Parse Error, TokArray::eat, Expected: ' %s ' not ' %.*s ' (%d, %d)`\n%s"
+		log_failure( "Parse Error, TokArray::eat, Expected: ' %s ' not ' %S ' (%d, %d)`\n%s"
 			, toktype_to_str(type).Ptr
-			, at_idx.Text.Len, at_idx.Text.Ptr
+			, at_idx.Text
 			, tok.Line
 			, tok.Column
 			, parser_to_strbuilder(_ctx->parser)
@@ -143,12 +143,12 @@ bool _check_parse_args( Str def, char const* func_name )
 {
 	if ( def.Len <= 0 )
 	{
-		log_failure( c_str_fmt_buf("gen::%s: length must greater than 0", func_name) );
+		log_failure( "gen::%s: length must greater than 0", func_name );
 		return false;
 	}
 	if ( def.Ptr == nullptr )
 	{
-		log_failure( c_str_fmt_buf("gen::%s: def was null", func_name) );
+		log_failure( "gen::%s: def was null", func_name );
 		return false;
 	}
 	return true;
@@ -543,7 +543,7 @@ Code parse_array_decl()
 
 		if ( currtok.Type != Tok_BraceSquare_Close )
 		{
-			log_failure( "%s: Error, expected ] in array declaration, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "%s: Error, expected ] in array declaration, not %S\n%SB", stringize(parse_array_decl), toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -683,7 +683,7 @@ internal
 Code parse_class_struct( TokType which, bool inplace_def )
 {
 	if ( which != Tok_Decl_Class && which != Tok_Decl_Struct ) {
-		log_failure( "Error, expected class or struct, not %s\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected class or struct, not %S\n%SB", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
 		return InvalidCode;
 	}
 
@@ -981,7 +981,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -1051,7 +1051,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if ( attributes )
 					{
 						StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, attributes->Content.Len + more_attributes->Content.Len );
-						strbuilder_append_fmt( & fused, "%SB %SB", attributes->Content, more_attributes->Content );
+						strbuilder_append_fmt( & fused, "%S %S", attributes->Content, more_attributes->Content );
 
 						Str attrib_name     = strbuilder_to_str(fused);
 						attributes->Name    = cache_str( attrib_name );
@@ -1222,7 +1222,7 @@ Code parse_complicated_definition( TokType which )
 			return result;
 		}
 
-		log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -1277,7 +1277,7 @@ Code parse_complicated_definition( TokType which )
 
 		if ( ! ok_to_parse )
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1296,7 +1296,7 @@ Code parse_complicated_definition( TokType which )
 			&&	( tokens.Arr[idx - 4].Type != which))
 		)
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1511,7 +1511,7 @@ CodeFn parse_function_after_name(
 
 			default:
 			{
-				log_failure("Body must be either of Function_Body or Untyped type, %s\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
+				log_failure("Body must be either of Function_Body or Untyped type, %S\n%SB", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -1757,7 +1757,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Module_Import: {
 				// import ...
-				log_failure( "gen::%s: This function is not implemented" );
+				log_failure( "gen::%s: This function is not implemented", stringize(parse_global_nspace) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -1767,7 +1767,7 @@ CodeBody parse_global_nspace( CodeType which )
 			{
 				if (tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2082,7 +2082,7 @@ Token parse_identifier( bool* possible_member_function )
 				return name;
 			}
 
-			log_failure( "Error, had a ~ operator after %SB but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, had a ~ operator after %S but not a destructor\n%SB", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2102,7 +2102,7 @@ Token parse_identifier( bool* possible_member_function )
 
 		if ( currtok.Type != Tok_Identifier )
 		{
-			log_failure( "Error, expected static symbol identifier, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected static symbol identifier, not %S\n%SB", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2434,7 +2434,7 @@ CodeOperator parse_operator_after_ret_type(
 			{
 				if ( op == Op_Invalid )
 				{
-					log_failure( "Invalid operator '%s'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Invalid operator '%S'\n%SB", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2444,7 +2444,7 @@ CodeOperator parse_operator_after_ret_type(
 
 	if ( op == Op_Invalid )
 	{
-		log_failure( "Invalid operator '%s'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Invalid operator '%S'\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3047,7 +3047,7 @@ Code parse_simple_preprocess( TokType which )
 
 	Macro* macro = lookup_macro( full_macro.Text );
 	if ( which != Tok_Preprocess_Unsupported && macro == nullptr ) {
-		log_failure("Expected the macro %S to be registered\n%S", full_macro,  parser_to_strbuilder(_ctx->parser));
+		log_failure("Expected the macro %S to be registered\n%SB", full_macro.Text,  parser_to_strbuilder(_ctx->parser));
 		parser_pop(& _ctx->parser);
 		return NullCode;
 	}
@@ -3201,7 +3201,7 @@ Code parse_static_assert()
 
 	content.Text.Len  = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)content.Text.Ptr;
 
-	char const* str  = c_str_fmt_buf( "%.*s\n", content.Text.Len, content.Text.Ptr );
+	char const* str  = c_str_fmt_buf( "%S\n", content.Text );
 	Str content_str = { str, content.Text.Len + 1 };
 	assert->Content = cache_str( content_str );
 	assert->Name	= assert->Content;
@@ -3650,7 +3650,7 @@ CodeDefine parser_parse_define()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define %s\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define %S\n%SB", define->Name, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
diff --git a/base/dependencies/debug.cpp b/base/dependencies/debug.cpp
index 464208a..35c6290 100644
--- a/base/dependencies/debug.cpp
+++ b/base/dependencies/debug.cpp
@@ -25,7 +25,7 @@ void assert_handler( char const* condition, char const* file, char const* functi
 
 s32 assert_crash( char const* condition )
 {
-	GEN_PANIC( condition );
+	GEN_PANIC( "%s", condition );
 	return 0;
 }
 
diff --git a/base/dependencies/debug.hpp b/base/dependencies/debug.hpp
index cb2970a..e98e45d 100644
--- a/base/dependencies/debug.hpp
+++ b/base/dependencies/debug.hpp
@@ -52,7 +52,7 @@
 		char buf[GEN_PRINTF_MAXLEN] = { 0 };               \
 		                                                   \
 		c_str_fmt(buf, GEN_PRINTF_MAXLEN, __VA_ARGS__);    \
-		GEN_PANIC(buf);                                    \
+		GEN_PANIC("%s", buf);                                \
 	}                                                      \
 	while (0)
 #else
diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ce13e23..955958b 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -751,7 +751,7 @@ ADT_Error adt_print_string( FileInfo* file, ADT_Node* node, char const* escaped_
 	do
 	{
 		p = c_str_skip_any( p, escaped_chars );
-		_adt_fprintf( file, "%.*s", pointer_diff( b, p ), b );
+		_adt_fprintf( file, "%.*s", scast( s32, pointer_diff( b, p )), b );
 		if ( *p && ! ! char_first_occurence( escaped_chars, *p ) )
 		{
 			_adt_fprintf( file, "%s%c", escape_symbol, *p );
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 533acfc..f8cfa67 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -37,7 +37,7 @@ CodeBody gen_ecode( char const* path, bool use_c_definition = false )
 
 #pragma push_macro("local_persist")
 #undef local_persist
-	Str      lookup_size  = strbuilder_to_str(strbuilder_fmt_buf(_ctx->Allocator_Temp, "%d", array_num(csv_enum.Col_1) ));
+	Str      lookup_size  = strbuilder_to_str(strbuilder_fmt_buf(_ctx->Allocator_Temp, "%d", scast( s32, array_num(csv_enum.Col_1)) ));
 	CodeBody to_c_str_fns = parse_global_body( token_fmt(
 		"entries",  strbuilder_to_str(to_c_str_entries)
 	,	"keywords", strbuilder_to_str(to_keyword_c_str_entries)
@@ -130,7 +130,7 @@ CodeBody gen_eoperator( char const* path, bool use_c_definition = false )
 
 #pragma push_macro("local_persist")
 #undef local_persist
-	Str lookup_size = strbuilder_to_str(strbuilder_fmt_buf(_ctx->Allocator_Temp, "%d", array_num(csv_enum.Col_1) ));
+	Str lookup_size = strbuilder_to_str(strbuilder_fmt_buf(_ctx->Allocator_Temp, "%d", scast( s32, array_num(csv_enum.Col_1)) ));
 	CodeFn to_str   = parse_function(token_fmt(
 		"entries", strbuilder_to_str(to_c_str_entries)
 	,	"num",     lookup_size
@@ -240,7 +240,7 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 #undef do_once_end
 #undef forceinline
 #undef neverinline
-	Str lookup_size = strbuilder_to_str(strbuilder_fmt_buf(_ctx->Allocator_Temp, "%d", array_num(csv_enum.Col_1) ));
+	Str lookup_size = strbuilder_to_str(strbuilder_fmt_buf(_ctx->Allocator_Temp, "%d", scast( s32, array_num(csv_enum.Col_1)) ));
 	CodeFn to_str   = parse_function(token_fmt(
 		"entries", strbuilder_to_str(to_c_str_entries)
 	,	"num",     lookup_size
diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index a7314b6..8702d42 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -42,8 +42,8 @@ CodeBody gen_array_base()
 
 CodeBody gen_array( Str type, Str array_name )
 {
-	StrBuilder array_type = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "%.*s", array_name.Len, array_name.Ptr );
-	StrBuilder fn         = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "%.*s", array_name.Len, array_name.Ptr );
+	StrBuilder array_type = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "%S", array_name );
+	StrBuilder fn         = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "%S", array_name );
 	// c_str_to_lower(fn.Data);
 
 #pragma push_macro( "GEN_ASSERT" )
diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 8303eb7..70988f6 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -37,9 +37,9 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 	StrBuilder name_lower = StrBuilder::make( _ctx->Allocator_Temp, hashtable_name );
 	// c_str_to_lower( name_lower.Data );
 
-	StrBuilder hashtable_entry   = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "HTE_%.*s",     hashtable_name.Len, hashtable_name.Ptr );
-	StrBuilder entry_array_name  = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "Arr_HTE_%.*s", hashtable_name.Len, hashtable_name.Ptr );
-	StrBuilder entry_array_fn_ns = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "arr_hte_%.*s", name_lower.length(), name_lower.Data );
+	StrBuilder hashtable_entry   = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "HTE_%S",     hashtable_name );
+	StrBuilder entry_array_name  = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "Arr_HTE_%S", hashtable_name );
+	StrBuilder entry_array_fn_ns = StrBuilder::fmt_buf( _ctx->Allocator_Temp, "arr_hte_%SB", name_lower );
 
 	CodeBody hashtable_types = parse_global_body( token_fmt(
 		"type",        (Str) type,
@@ -395,9 +395,9 @@ R"(#define GENERIC_SLOT_<slot>__hashtable_init          <type>,      <tbl_type>_
 )"
 	));
 
-	char const* cmt_str = c_str_fmt_buf( "Name: %.*s Type: %.*s"
-		, tbl_type.length(), tbl_type.Data
-		, type.Len, type.Ptr );
+	char const* cmt_str = c_str_fmt_buf( "Name: %SB Type: %S"
+		, tbl_type
+		, type );
 
 	return def_global_body(args(
 		def_pragma( strbuilder_to_str( strbuilder_fmt_buf( _ctx->Allocator_Temp, "region %SB", tbl_type ))),
-- 
2.43.0


From 9e570918c433f0b4424497d4d81ff95a784cde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 04/58] fix: spell 'class' in the code type keyword table,
 order the macro type names like the enum

---
 base/components/gen/ecodetypes.hpp | 2 +-
 base/components/parser_types.hpp   | 2 +-
 base/enums/ECodeTypes.csv          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/gen/ecodetypes.hpp b/base/components/gen/ecodetypes.hpp
index 139e615..7d2b088 100644
--- a/base/components/gen/ecodetypes.hpp
+++ b/base/components/gen/ecodetypes.hpp
@@ -154,7 +154,7 @@ inline Str codetype_to_keyword_str(CodeType type)
 		{ "public",          sizeof("public") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "class",           sizeof("class") - 1           },
-		{ "clsss",           sizeof("clsss") - 1           },
+		{ "class",           sizeof("class") - 1           },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 3bf7f27..6c93d65 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -151,8 +151,8 @@ Str macrotype_to_str( MacroType type )
 {
 	local_persist
 	Str lookup[] = {
-		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Expression",       sizeof("Expression")       - 1 },
+		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Typename",         sizeof("Typename")         - 1 },
 		{ "Block_Start",      sizeof("Block_Start")      - 1 },
 		{ "Block_End",        sizeof("Block_End")        - 1 },
diff --git a/base/enums/ECodeTypes.csv b/base/enums/ECodeTypes.csv
index d1ca2d6..e3f31aa 100644
--- a/base/enums/ECodeTypes.csv
+++ b/base/enums/ECodeTypes.csv
@@ -7,7 +7,7 @@ Access_Protected,    "protected"
 Access_Public,       "public"
 PlatformAttributes,  "__NA__"
 Class,               "class"
-Class_Fwd,           "clsss"
+Class_Fwd,           "class"
 Class_Body,          "__NA__"
 Constructor,         "__NA__"
 Constructor_Fwd,     "__NA__"
-- 
2.43.0


From 71a2a4af186a8a67186e598a3012cc3e32b05917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 05/58] fix: make the library compile on Linux and with the
 documented options

---
 base/components/ast.cpp          |  2 +-
 base/dependencies/debug.hpp      |  4 ++++
 base/dependencies/filesystem.cpp |  2 +-
 base/dependencies/memory.cpp     | 14 +++++++++++---
 base/dependencies/parsing.cpp    | 12 ++++++------
 base/dependencies/platform.hpp   |  7 +++++++
 base/dependencies/src_start.cpp  |  3 +++
 7 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d974d64..cc08030 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -393,7 +393,7 @@ void code_to_strbuilder_ref( Code self, StrBuilder* result )
 	{
 		case CT_Invalid:
 		#ifdef GEN_DONT_ALLOW_INVALID_CODE
-			log_failure("Attempted to serialize invalid code! - %S", Parent ? Parent->code_debug_str() : Name );
+			log_failure("Attempted to serialize invalid code! - %SB", code_debug_str(self->Parent ? self->Parent : self) );
 		#else
 			strbuilder_append_fmt( result, "Invalid Code!" );
 		#endif
diff --git a/base/dependencies/debug.hpp b/base/dependencies/debug.hpp
index e98e45d..e044831 100644
--- a/base/dependencies/debug.hpp
+++ b/base/dependencies/debug.hpp
@@ -8,6 +8,10 @@
 
 #pragma region Debug
 
+#ifndef GEN_BUILD_DEBUG
+#	define GEN_BUILD_DEBUG 0
+#endif
+
 #if GEN_BUILD_DEBUG
 #	if defined( GEN_COMPILER_MSVC )
 #		if _MSC_VER < 1300
diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index a52c621..3c6ced7 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -200,7 +200,7 @@ GEN_FILE_SEEK_PROC( _posix_file_seek )
 internal
 GEN_FILE_READ_AT_PROC( _posix_file_read )
 {
-	unused( stop_at_newline );
+	// unused( stop_at_newline );
 	ssize res = pread( fd.i, buffer, size, offset );
 	if ( res < 0 )
 		return false;
diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 8c32c81..5fa7dc2 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -145,7 +145,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				ptr = aligned_alloc( alignment, ( size + alignment - 1 ) & ~( alignment - 1 ) );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -154,7 +154,11 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 		case EAllocation_FREE :
 			{
+#	if GEN_COMPILER_CPP
+				::free( old_memory );
+#	else
 				free( old_memory );
+#	endif
 			}
 			break;
 
@@ -169,7 +173,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				posix_memalign( &ptr, alignment, size );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -178,7 +182,11 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 		case EAllocation_FREE :
 			{
+#	if GEN_COMPILER_CPP
+				::free( old_memory );
+#	else
 				free( old_memory );
+#	endif
 			}
 			break;
 
@@ -312,7 +320,7 @@ VirtualMemory vm_trim( VirtualMemory vm, ssize lead_size, ssize size )
 	trail_size = vm.size - lead_size - size;
 
 	if ( lead_size != 0 )
-		vm_free( vm_from_memory(( vm.data, lead_size ) );
+		vm_free( vm_from_memory( vm.data, lead_size ) );
 	if ( trail_size != 0 )
 		vm_free( vm_from_memory( ptr, trail_size ) );
 	return vm_from_memory( ptr, size );
diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 955958b..5945ff1 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -637,12 +637,12 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 	node->neg_zero     = neg_zero;
 	node->lead_digit   = lead_digit;
 #else
-	unused( base );
-	unused( base2 );
-	unused( base2_offset );
-	unused( exp );
-	unused( neg_zero );
-	unused( lead_digit );
+	(void)base;
+	(void)base2;
+	(void)base2_offset;
+	(void)exp;
+	(void)neg_zero;
+	(void)lead_digit;
 #endif
 	return e;
 }
diff --git a/base/dependencies/platform.hpp b/base/dependencies/platform.hpp
index bb3144a..a3c5d6f 100644
--- a/base/dependencies/platform.hpp
+++ b/base/dependencies/platform.hpp
@@ -132,8 +132,15 @@
 
 #	if defined( GEN_SYSTEM_WINDOWS )
 #		include <intrin.h>
+#	else
+#		include <stdint.h>
+#		include <stdlib.h>
 #	endif
 
+#if GEN_COMPILER_CPP
+#	include <cstddef>
+#endif
+
 #if GEN_COMPILER_C
 #include <assert.h>
 #include <stdbool.h>
diff --git a/base/dependencies/src_start.cpp b/base/dependencies/src_start.cpp
index ab5e7a6..68de0aa 100644
--- a/base/dependencies/src_start.cpp
+++ b/base/dependencies/src_start.cpp
@@ -23,6 +23,9 @@
 #
 #	if defined( GEN_SYSTEM_UNIX ) || defined( GEN_SYSTEM_MACOS )
 #		include <unistd.h>
+#		include <fcntl.h>
+#		include <string.h>
+#		include <sys/mman.h>
 #	elif defined( GEN_SYSTEM_WINDOWS )
 #		if ! defined( GEN_NO_WINDOWS_H )
 #			ifndef WIN32_LEAN_AND_MEAN
-- 
2.43.0


From 376909ba9a437382e97ba7674bf2393c5a02d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 06/58] fix: make every container operation instantiable and
 write the appended items

---
 base/dependencies/containers.hpp | 93 ++++++++++++++++----------------
 1 file changed, 47 insertions(+), 46 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6418ce5..9d4ffc4 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -44,14 +44,14 @@ template<class Type> Type*        array_back           (Array<Type>  array);
 template<class Type> void         array_clear          (Array<Type>  array);
 template<class Type> bool         array_fill           (Array<Type>  array, usize begin, usize end, Type value);
 template<class Type> void         array_free           (Array<Type>* array);
-template<class Type> bool         arary_grow           (Array<Type>* array, usize min_capacity);
+template<class Type> bool         array_grow           (Array<Type>* array, usize min_capacity);
 template<class Type> usize        array_num            (Array<Type>  array);
-template<class Type> void         arary_pop            (Array<Type>  array);
-template<class Type> void         arary_remove_at      (Array<Type>  array, usize idx);
-template<class Type> bool         arary_reserve        (Array<Type>* array, usize new_capacity);
-template<class Type> bool         arary_resize         (Array<Type>* array, usize num);
-template<class Type> bool         arary_set_capacity   (Array<Type>* array, usize new_capacity);
-template<class Type> ArrayHeader* arary_get_header     (Array<Type>  array);
+template<class Type> void         array_pop            (Array<Type>  array);
+template<class Type> void         array_remove_at      (Array<Type>  array, usize idx);
+template<class Type> bool         array_reserve        (Array<Type>* array, usize new_capacity);
+template<class Type> bool         array_resize         (Array<Type>* array, usize num);
+template<class Type> bool         array_set_capacity   (Array<Type>* array, usize new_capacity);
+template<class Type> ArrayHeader* array_get_header     (Array<Type>  array);
 
 struct ArrayHeader {
 	AllocatorInfo Allocator;
@@ -68,7 +68,7 @@ struct Array
 #pragma region Member Mapping
 	forceinline static Array  init(AllocatorInfo allocator)                         { return array_init<Type>(allocator); }
 	forceinline static Array  init_reserve(AllocatorInfo allocator, ssize capacity) { return array_init_reserve<Type>(allocator, capacity); }
-	forceinline static usize  grow_formula(ssize value)                             { return array_grow_formula<Type>(value); }
+	forceinline static usize  grow_formula(ssize value)                             { return array_grow_formula(value); }
 
 	forceinline bool         append(Array other)                               { return array_append_array<Type>(this, other); }
 	forceinline bool         append(Type value)                                { return array_append<Type>(this, value); }
@@ -189,7 +189,7 @@ bool array_append_items(Array<Type>* array, Type* items, usize item_num)
 		header = array_get_header(* array);
 	}
 
-	mem_copy((Type*)array + header->Num, items, item_num * sizeof(Type));
+	mem_copy((* array).Data + header->Num, items, item_num * sizeof(Type));
 	header->Num += item_num;
 
 	return true;
@@ -204,7 +204,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 
 	ssize slot = idx;
 	if (slot >= (ssize)(header->Num))
-		slot = header->Num - 1;
+		slot = header->Num;
 
 	if (slot < 0)
 		slot = 0;
@@ -220,6 +220,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	Type* target = &(*array)[slot];
 
 	mem_move(target + 1, target, (header->Num - slot) * sizeof(Type));
+	* target = item;
 	header->Num++;
 
 	return true;
@@ -230,23 +231,23 @@ bool array_append_items_at(Array<Type>* array, Type* items, usize item_num, usiz
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (idx >= header->Num)
 	{
 		return array_append_items(array, items, item_num);
 	}
 
-	if (item_num > header->Capacity)
+	if (header->Num + item_num > header->Capacity)
 	{
-		if (! grow(array, header->Capacity + item_num))
+		if (! array_grow(array, header->Capacity + item_num))
 			return false;
 
-		header = get_header(array);
+		header = array_get_header(* array);
 	}
 
-	Type* target = array.Data + idx + item_num;
-	Type* src    = array.Data + idx;
+	Type* target = (* array).Data + idx + item_num;
+	Type* src    = (* array).Data + idx;
 
 	mem_move(target, src, (header->Num - idx) * sizeof(Type));
 	mem_copy(src, items, item_num * sizeof(Type));
@@ -355,10 +356,10 @@ bool array_reserve(Array<Type>* array, usize new_capacity)
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = array_get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (header->Capacity < new_capacity)
-		return set_capacity(array, new_capacity);
+		return array_set_capacity(array, new_capacity);
 
 	return true;
 }
@@ -496,18 +497,18 @@ struct HashTable
 	forceinline static HashTable init(AllocatorInfo allocator)                    { return	hashtable_init<Type>(allocator); }
 	forceinline static HashTable init_reserve(AllocatorInfo allocator, usize num) { return	hashtable_init_reserve<Type>(allocator, num); }
 
-	forceinline void  clear()                           {        clear<Type>(*this); }
-	forceinline void  destroy()                         {        destroy<Type>(*this); }
-	forceinline Type* get(u64 key)                      { return get<Type>(*this, key); }
-	forceinline void  grow()                            {        grow<Type>(*this); }
-	forceinline void  rehash(ssize new_num)             {        rehash<Type>(*this, new_num); }
-	forceinline void  rehash_fast()                     {        rehash_fast<Type>(*this); }
-	forceinline void  remove(u64 key)                   {        remove<Type>(*this, key); }
-	forceinline void  remove_entry(ssize idx)           {        remove_entry<Type>(*this, idx); }
-	forceinline void  set(u64 key, Type value)          {        set<Type>(*this, key, value); }
-	forceinline ssize slot(u64 key)                     { return slot<Type>(*this, key); }
-	forceinline void  map(void (*proc)(u64, Type))      {        map<Type>(*this, proc); }
-	forceinline void  map_mut(void (*proc)(u64, Type*)) {        map_mut<Type>(*this, proc); }
+	forceinline void  clear()                           {        hashtable_clear<Type>(*this); }
+	forceinline void  destroy()                         {        hashtable_destroy<Type>(this); }
+	forceinline Type* get(u64 key)                      { return hashtable_get<Type>(*this, key); }
+	forceinline void  grow()                            {        hashtable_grow<Type>(this); }
+	forceinline void  rehash(ssize new_num)             {        hashtable_rehash<Type>(this, new_num); }
+	forceinline void  rehash_fast()                     {        hashtable_rehash_fast<Type>(*this); }
+	forceinline void  remove(u64 key)                   {        hashtable_remove<Type>(*this, key); }
+	forceinline void  remove_entry(ssize idx)           {        hashtable_remove_entry<Type>(*this, idx); }
+	forceinline void  set(u64 key, Type value)          {        hashtable_set<Type>(this, key, value); }
+	forceinline ssize slot(u64 key)                     { return hashtable_slot<Type>(*this, key); }
+	forceinline void  map(void (*proc)(u64, Type))      {        hashtable_map<Type>(*this, proc); }
+	forceinline void  map_mut(void (*proc)(u64, Type*)) {        hashtable_map_mut<Type>(*this, proc); }
 #pragma endregion Member Mapping
 #endif
 
@@ -515,11 +516,11 @@ struct HashTable
 };
 
 #if GEN_SUPPORT_CPP_REFERENCES
-template<class Type> void  destroy  (HashTable<Type>& table)                      { destroy(& table); }
-template<class Type> void  grow     (HashTable<Type>& table)                      { grow(& table); }
-template<class Type> void  rehash   (HashTable<Type>& table, ssize new_num)       { rehash(& table, new_num); }
-template<class Type> void  set      (HashTable<Type>& table, u64 key, Type value) { set(& table, key, value); }
-template<class Type> ssize add_entry(HashTable<Type>& table, u64 key)             { add_entry(& table, key); }
+template<class Type> void  destroy  (HashTable<Type>& table)                      { hashtable_destroy(& table); }
+template<class Type> void  grow     (HashTable<Type>& table)                      { hashtable_grow(& table); }
+template<class Type> void  rehash   (HashTable<Type>& table, ssize new_num)       { hashtable_rehash(& table, new_num); }
+template<class Type> void  set      (HashTable<Type>& table, u64 key, Type value) { hashtable_set(& table, key, value); }
+template<class Type> ssize add_entry(HashTable<Type>& table, u64 key)             { return hashtable__add_entry(& table, key); }
 #endif
 
 template<typename Type> inline
@@ -577,7 +578,7 @@ void hashtable_map(HashTable<Type> table, void (*map_proc)(u64 key, Type value))
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize( array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, table.Entries[idx].Value);
 	}
 }
@@ -588,7 +589,7 @@ void hashtable_map_mut(HashTable<Type> table, void (*map_proc)(u64 key, Type* va
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize( array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, & table.Entries[idx].Value);
 	}
 }
@@ -639,19 +640,19 @@ void hashtable_rehash_fast(HashTable<Type> table)
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	ssize idx;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize( array_num(table.Entries)); idx++)
 		table.Entries[idx].Next = -1;
 
-	for (idx = 0; idx < ssize(num(table.Hashes)); idx++)
+	for (idx = 0; idx < ssize( array_num(table.Hashes)); idx++)
 		table.Hashes[idx] = -1;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize( array_num(table.Entries)); idx++)
 	{
 		HashTableEntry<Type>* entry;
 		HashTableFindResult find_result;
 
 		entry = &table.Entries[idx];
-		find_result = find(table, entry->Key);
+		find_result = hashtable__find(table, entry->Key);
 
 		if (find_result.PrevIndex < 0)
 			table.Hashes[find_result.HashIndex] = idx;
@@ -664,11 +665,11 @@ template<typename Type> forceinline
 void hashtable_remove(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	HashTableFindResult find_result = find(table, key);
+	HashTableFindResult find_result = hashtable__find(table, key);
 
 	if (find_result.EntryIndex >= 0) {
-		remove_at(table.Entries, find_result.EntryIndex);
-		rehash_fast(table);
+		array_remove_at(table.Entries, find_result.EntryIndex);
+		hashtable_rehash_fast(table);
 	}
 }
 
@@ -676,7 +677,7 @@ template<typename Type> forceinline
 void hashtable_remove_entry(HashTable<Type> table, ssize idx) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	remove_at(table.Entries, idx);
+	array_remove_at(table.Entries, idx);
 }
 
 template<typename Type> inline
@@ -717,7 +718,7 @@ template<typename Type> forceinline
 ssize hashtable_slot(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	for (ssize idx = 0; idx < ssize(num(table.Hashes)); ++idx)
+	for (ssize idx = 0; idx < ssize( array_num(table.Hashes)); ++idx)
 		if (table.Hashes[idx] == key)
 			return idx;
 
-- 
2.43.0


From 73995713a5e97f7de1b01583663d013ebd35cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 07/58] fix: bound specifier lists and number buffers by their
 capacity

---
 base/components/inlines.hpp           | 18 +++-------
 base/components/interface.parsing.cpp |  4 +++
 base/components/parser.cpp            | 50 +++++++++++++++++++++++++++
 base/dependencies/parsing.cpp         | 15 ++++++--
 4 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index b05e798..abce574 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -633,31 +633,21 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 		log_failure("CodeSpecifiers: Attempted to append to a null specifiers AST!");
 		return -1;
 	}
-	if ( self->NumEntries == AST_ArrSpecs_Cap )
-	{
-		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
-		return -1;
-	}
-
 	s32 result = -1;
 
 	s32 curr = 0;
 	s32 next = 0;
-	for(; next < self->NumEntries; ++ curr, ++ next)
+	for(; next < self->NumEntries; ++ next)
 	{
 		Specifier spec = self->ArrSpecs[next];
-		if (spec == to_remove)
+		if (result == -1 && spec == to_remove)
 		{
 			result = next;
-
-			next ++;
-			if (next >= self->NumEntries)
-				break;
-
-			spec = self->ArrSpecs[next];
+			continue;
 		}
 
 		self->ArrSpecs[ curr ] = spec;
+		++ curr;
 	}
 
 	if (result > -1) {
diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index 741572d..b944e52 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -67,6 +67,10 @@ CodeConstructor parse_constructor( Str def )
 		if (ignore_spec)
 			break;
 
+		if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+			log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 0555b52..1c37e99 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1032,6 +1032,11 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if (ignore_spec)
 						break;
 
+					if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+						log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -1819,6 +1824,11 @@ CodeBody parse_global_nspace( CodeType which )
 					if (ignore_spec)
 						break;
 
+					if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+						log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -4118,6 +4128,11 @@ CodeFriend parser_parse_friend()
 			if ( spec == Spec_Const )
 				break;
 
+			if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+				log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -4235,6 +4250,11 @@ CodeFn parser_parse_function()
 		if ( spec == Spec_Const )
 			continue;
 
+		if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+			log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4336,6 +4356,11 @@ CodeOperator parser_parse_operator()
 		if ( spec == Spec_Const )
 			continue;
 
+		if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+			log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4574,6 +4599,11 @@ CodeTemplate parser_parse_template()
 				if ( spec == Spec_Const )
 					break;
 
+				if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+					log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -4691,6 +4721,11 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 			return InvalidCode;
 		}
 
+		if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+			log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4834,6 +4869,11 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 		}
+		if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+			log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -5036,6 +5076,11 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 
+			if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+				log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -5629,6 +5674,11 @@ CodeVar parser_parse_variable()
 		if ( spec == Spec_Const )
 			break;
 
+		if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
+			log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 5945ff1..807a755 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -506,6 +506,9 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 		buf[ ib++ ] = '0';
 		do
 		{
+			if ( ib >= size_of( buf ) - 1 )
+				return ++base_str;
+
 			buf[ ib++ ] = *e;
 		} while ( char_is_digit( *++e ) );
 	}
@@ -524,6 +527,9 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 
 		while ( char_is_hex_digit( *e ) || char_to_lower( *e ) == 'x' )
 		{
+			if ( ib >= size_of( buf ) - 1 )
+				return ++base_str;
+
 			buf[ ib++ ] = *e++;
 		}
 
@@ -535,11 +541,14 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 
 			do
 			{
+				if ( ib >= size_of( buf ) - 1 )
+					return ++base_str;
+
 				buf[ ib++ ] = *e;
 				++step;
 			} while ( char_is_digit( *++e ) );
 
-			if ( step < 2 )
+			if ( step < 2 && ib < size_of( buf ) - 1 )
 			{
 				buf[ ib++ ] = '0';
 			}
@@ -571,7 +580,9 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 			}
 			while ( char_is_digit( *e ) )
 			{
-				expbuf[ expi++ ] = *e++;
+				if ( expi < size_of( expbuf ) - 1 )
+					expbuf[ expi++ ] = *e;
+				++e;
 			}
 		}
 
-- 
2.43.0


From 605c67d28a9e5f4ea684075c004aabfc81952736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 08/58] fix: end #if and #ifndef lines, keep export and
 attributes of using namespace

---
 base/components/inlines.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index abce574..aadf92f 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -196,7 +196,7 @@ void preprocess_to_strbuilder_if(CodePreprocessCond cond, StrBuilder* result )
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#if %S", cond->Content );
+	strbuilder_append_fmt( result, "#if %S\n", cond->Content );
 }
 
 inline
@@ -212,7 +212,7 @@ void preprocess_to_strbuilder_ifndef(CodePreprocessCond cond, StrBuilder* result
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#ifndef %S", cond->Content );
+	strbuilder_append_fmt( result, "#ifndef %S\n", cond->Content );
 }
 
 inline
@@ -297,6 +297,12 @@ void using_to_strbuilder_ns(CodeUsing self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
+		strbuilder_append_str( result, txt("export ") );
+
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "using namespace %S;  %S", self->Name, self->InlineCmt->Content );
 	else
-- 
2.43.0


From d4c51b1d1f999b1ad9a8f7adf668a3bd77901d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 09/58] fix: emit constructor and destructor specifiers, names
 and bodies

---
 base/components/code_serialization.cpp | 110 +++++++++++++++++++------
 1 file changed, 87 insertions(+), 23 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 7feb17d..f0747ee 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -70,7 +70,16 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
+
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
@@ -83,6 +92,15 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 	else
 		strbuilder_append_str( result, txt("()") );
 
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
+		}
+	}
+
 	if ( self->InitializerList )
 		strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->InitializerList) );
 
@@ -96,7 +114,16 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
+
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
@@ -109,6 +136,15 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 	else
 		strbuilder_append_fmt( result, "()");
 
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
+		}
+	}
+
 	if (self->Body)
 		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
@@ -256,19 +292,32 @@ void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Name.Len )
+	if ( self->Specs )
 	{
-		strbuilder_append_fmt( result, "%S()", self->Name );
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
 	}
-	else if ( self->Specs )
+
+	// The name is either fully provided (with its '~') or taken from the class/struct the destructor resides in.
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+	if ( self->Name.Len )
+		strbuilder_append_fmt( result, "%S()", self->Name );
+	else if ( ClassStructParent )
+		strbuilder_append_fmt( result, "~%S()", ClassStructParent->Name );
+	else if ( self->Parent )
+		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+
+	if ( self->Specs )
 	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S()", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
+		}
 	}
-	else
-		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -279,23 +328,38 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 	GEN_ASSERT(result);
 	if ( self->Specs )
 	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S();\n", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
 
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0;") );
-		else if (self->Body)
-			strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
+	// The name is either fully provided (with its '~') or taken from the class/struct the destructor resides in.
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+	if ( self->Name.Len )
+		strbuilder_append_fmt( result, "%S()", self->Name );
+	else if ( ClassStructParent )
+		strbuilder_append_fmt( result, "~%S()", ClassStructParent->Name );
+	else if ( self->Parent )
+		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
+		}
 	}
-	else
-		strbuilder_append_fmt( result, "~%S();", self->Parent->Name );
+
+	if (self->Body)
+		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
-		strbuilder_append_str( result, txt("\n"));
+		strbuilder_append_str( result, txt(";\n"));
 }
 
 StrBuilder enum_to_strbuilder(CodeEnum self)
-- 
2.43.0


From f4b8c5367319183763d2ce29f541e00e68318149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 10/58] fix: emit every component of enum definitions and
 forwards once

---
 base/components/code_serialization.cpp | 91 ++++++++++++--------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index f0747ee..18f74f5 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -391,32 +391,25 @@ void enum_to_strbuilder_def(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes || self->UnderlyingType || self->UnderlyingTypeMacro )
-	{
-		strbuilder_append_str( result, txt("enum ") );
-
-		if ( self->Attributes )
-			strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+	strbuilder_append_str( result, txt("enum ") );
 
-		if ( self->UnderlyingType )
-			strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}"
-				, self->Name
-				, typename_to_strbuilder(self->UnderlyingType)
-				, body_to_strbuilder(self->Body)
-			);
-		else if ( self->UnderlyingTypeMacro )
-			strbuilder_append_fmt( result, "%S %SB\n{\n%SB\n}"
-				, self->Name
-				, code_to_strbuilder(self->UnderlyingTypeMacro)
-				, body_to_strbuilder(self->Body)
-			);
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-		else strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-	}
-	else strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
+	if ( self->UnderlyingType )
+		strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, "%S %SB\n{\n%SB\n}", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro), body_to_strbuilder(self->Body) );
+	else
+		strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n"));
+	}
 }
 
 void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
@@ -426,18 +419,17 @@ void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
+	strbuilder_append_str( result, txt("enum ") );
+
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
 	if ( self->UnderlyingType )
-		strbuilder_append_fmt( result, "enum %S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
-	else if (self->UnderlyingTypeMacro)
-	{
-		log_fmt("IDENTIFIED A UNDERLYING ENUM MACRO");
-		strbuilder_append_fmt( result, "enum %S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
-	}
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
 	else
-		strbuilder_append_fmt( result, "enum %S", self->Name );
+		strbuilder_append_fmt( result, "%S", self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
@@ -455,31 +447,25 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes || self->UnderlyingType )
-	{
-		strbuilder_append_str( result, txt("enum class ") );
+	strbuilder_append_str( result, txt("enum class ") );
 
-		if ( self->Attributes )
-		{
-			strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-		}
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-		if ( self->UnderlyingType )
-		{
-			strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
-		}
-		else
-		{
-			strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-		}
-	}
+	if ( self->UnderlyingType )
+		strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, "%S %SB\n{\n%SB\n}", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro), body_to_strbuilder(self->Body) );
 	else
-	{
-		strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-	}
+		strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n"));
+	}
 }
 
 void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
@@ -494,7 +480,12 @@ void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	if ( self->UnderlyingType )
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
+	else
+		strbuilder_append_fmt( result, "%S", self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
-- 
2.43.0


From 98d20faa8531fb6703b7298e75662ed940c2937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 11/58] fix: emit function and operator components once

---
 base/components/code_serialization.cpp | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 18f74f5..6ed8c8d 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -517,7 +517,7 @@ void fn_to_strbuilder_def(CodeFn self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export") );
+		strbuilder_append_str( result, txt("export ") );
 
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, " %SB ", attributes_to_strbuilder(self->Attributes) );
@@ -586,7 +586,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( ! spec_is_trailing( * spec ) || ! ( * spec != Spec_Pure) )
+			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %S", spec_str );
@@ -623,11 +623,6 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 				strbuilder_append_fmt( result, " %S", spec_str );
 			}
 		}
-
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0") );
-		else if ( specifiers_has(self->Specs, Spec_Delete ) )
-			strbuilder_append_str( result, txt(" = delete") );
 	}
 
 	// This is bodged in for now SOLEY for Unreal's PURE_VIRTUAL functional macro (I kept it open ended for other jank)
@@ -635,7 +630,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->SuffixSpecs) );
 
 	if (self->Body)
-		strbuilder_append_fmt( result, " = %SB;", body_to_strbuilder(self->Body) );
+		strbuilder_append_fmt( result, " = %SB", body_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
@@ -684,9 +679,6 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
@@ -707,6 +699,9 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 	if ( self->ReturnType )
 		strbuilder_append_fmt( result, "%SB %S (", typename_to_strbuilder(self->ReturnType), self->Name );
 
+	else
+		strbuilder_append_fmt( result, "%S (", self->Name );
+
 	if ( self->Params )
 		strbuilder_append_fmt( result, "%SB)", params_to_strbuilder(self->Params) );
 
@@ -757,7 +752,11 @@ void code_op_to_strbuilder_fwd(CodeOperator self, StrBuilder* result )
 		strbuilder_append_str( result, txt("\n") );
 	}
 
-	strbuilder_append_fmt( result, "%SB %S (", typename_to_strbuilder(self->ReturnType), self->Name );
+	if ( self->ReturnType )
+		strbuilder_append_fmt( result, "%SB %S (", typename_to_strbuilder(self->ReturnType), self->Name );
+
+	else
+		strbuilder_append_fmt( result, "%S (", self->Name );
 
 	if ( self->Params )
 		strbuilder_append_fmt( result, "%SB)", params_to_strbuilder(self->Params) );
@@ -853,6 +852,9 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			}
 		}
 
+		if ( self->Name.Ptr && self->Name.Len )
+			strbuilder_append_fmt( result, "%S ", self->Name );
+
 		strbuilder_append_fmt( result, "operator %SB()", typename_to_strbuilder(self->ValueType) );
 
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
@@ -871,6 +873,9 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 		return;
 	}
 
+	if ( self->Name.Ptr && self->Name.Len )
+		strbuilder_append_fmt( result, "%S ", self->Name );
+
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "operator %SB();  %S", typename_to_strbuilder(self->ValueType), self->InlineCmt->Content );
 	else
-- 
2.43.0


From 142256095f3e1a33a4c331a84262f87f06f0c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 12/58] fix: emit array extents, initializers and signatures of
 types and variables in place

---
 base/components/code_serialization.cpp | 52 ++++++++++----------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 6ed8c8d..f7cd43d 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -38,7 +38,7 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	GEN_ASSERT(result != nullptr);
 	strbuilder_append_fmt( result, "export\n{\n" );
 
-	Code curr = cast(Code, body);
+	Code curr = body->Front;
 	s32  left = body->NumEntries;
 	while ( left-- )
 	{
@@ -1091,19 +1091,17 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 
 	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ArrExpr )
 	{
-		strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
+		strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
 
 		Code next_arr_expr = self->UnderlyingType->ArrExpr->Next;
 		while ( next_arr_expr )
 		{
-			strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(next_arr_expr) );
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
 			next_arr_expr = next_arr_expr->Next;
 		}
 	}
-	else
-	{
-		strbuilder_append_str( result, txt(";") );
-	}
+
+	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content);
@@ -1120,28 +1118,24 @@ void typename_to_strbuilder_ref(CodeTypename self, StrBuilder* result )
 		{
 			if ( self->Attributes )
 				strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
+			if ( self->Specs )
+				strbuilder_append_fmt( result, "%SB ( %S ) ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
 			else
-			{
-				if ( self->Specs )
-					strbuilder_append_fmt( result, "%SB ( %S ) ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
-				else
-					strbuilder_append_fmt( result, "%SB ( %S ) ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
-			}
+				strbuilder_append_fmt( result, "%SB ( %S ) ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
 
-			break;
+			return;
 		}
 	#else
 		if ( self->ReturnType && self->Params )
 		{
 			if ( self->Attributes )
 				strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
+			if ( self->Specs )
+				strbuilder_append_fmt( result, "%SB %S ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
 			else
-			{
-				if ( self->Specs )
-					strbuilder_append_fmt( result, "%SB %S ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
-				else
-					strbuilder_append_fmt( result, "%SB %S ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
-			}
+				strbuilder_append_fmt( result, "%SB %S ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
 
 			return;
 		}
@@ -1300,10 +1294,13 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 			}
 		}
 
+		if ( self->BitfieldSize )
+			strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->BitfieldSize) );
+
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1312,9 +1309,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		return;
 	}
 
@@ -1349,7 +1343,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1357,9 +1351,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		if ( self->InlineCmt )
 			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content);
 		else
@@ -1389,7 +1380,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->Value )
 	{
 		if ( self->VarParenthesizedInit )
-			strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+			strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 		else
 			strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 	}
@@ -1397,9 +1388,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->NextVar )
 		strbuilder_append_fmt( result, ", %SB", var_to_strbuilder( self->NextVar) );
 
-	if ( self->VarParenthesizedInit )
-		strbuilder_append_str( result, txt(" )"));
-
 	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
-- 
2.43.0


From 05216984ced2b616704113662029e1385bce8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 13/58] fix: compare every component in code_is_equal

---
 base/components/ast.cpp | 322 ++++++++++++++--------------------------
 1 file changed, 115 insertions(+), 207 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index cc08030..bfe8918 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -612,9 +612,12 @@ bool code_is_equal( Code self, Code other )
 	Cached strings are compared by pointer.
 	AST nodes are compared with AST::is_equal.
 */
-	if ( other == nullptr )
+	if ( self == other )
+		return true;
+
+	if ( self == nullptr || other == nullptr )
 	{
-		log_fmt( "AST::is_equal: other is null\nAST: %S", code_debug_str(self) );
+		log_fmt( "AST::is_equal: %s is null\n", self == nullptr ? "self" : "other" );
 		return false;
 	}
 
@@ -673,40 +676,76 @@ bool code_is_equal( Code self, Code other )
 			, str_visualize_whitespace(self->content, _ctx->Allocator_Temp)  \
 			, str_visualize_whitespace(other->content, _ctx->Allocator_Temp) \
 		);                                                                   \
+		                                                                     \
+		return false;                                                        \
+	}
+
+	#define check_member_ast( ast )                                                             \
+	if ( self->ast != nullptr || other->ast != nullptr )                                        \
+	{                                                                                           \
+		if ( self->ast == nullptr || other->ast == nullptr )                                    \
+		{                                                                                       \
+			log_fmt("\nAST::is_equal: Failed for member " #ast " only present on one of them\n" \
+					"AST  : %S\n"                                                               \
+					"Other: %S\n"                                                               \
+				, code_debug_str(self)                                                          \
+				, code_debug_str(other)                                                         \
+			);                                                                                  \
+                                                                                                \
+			return false;                                                                       \
+		}                                                                                       \
+                                                                                                \
+		if ( ! code_is_equal(self->ast, other->ast ) )                                          \
+		{                                                                                       \
+			log_fmt( "\nAST::is_equal: Failed for " #ast"\n"                                    \
+					"AST  : %S\n"                                                               \
+					"Other: %S\n"                                                               \
+					"For     ast member: %S\n"                                                  \
+					"other's ast member: %S\n"                                                  \
+				, code_debug_str(self)                                                          \
+				, code_debug_str(other)                                                         \
+				, code_debug_str(self->ast)                                                     \
+				, code_debug_str(other->ast)                                                    \
+			);                                                                                  \
+                                                                                                \
+			return false;                                                                       \
+		}                                                                                       \
 	}
 
-	#define check_member_ast( ast )                                                                \
-	if ( self->ast )                                                                               \
-	{                                                                                              \
-		if ( other->ast == nullptr )                                                               \
-		{                                                                                          \
-			log_fmt("\nAST::is_equal: Failed for member " #ast " other equivalent param is null\n" \
-					"AST  : %S\n"                                                                  \
-					"Other: %S\n"                                                                  \
-					"For ast member: %S\n"                                                         \
-				, code_debug_str(self)                                                             \
-				, code_debug_str(other)                                                            \
-				, code_debug_str(self->ast)                                                        \
-			);                                                                                     \
-                                                                                                   \
-			return false;                                                                          \
-		}                                                                                          \
-                                                                                                   \
-		if ( ! code_is_equal(self->ast, other->ast ) )                                             \
-		{                                                                                          \
-			log_fmt( "\nAST::is_equal: Failed for " #ast"\n"                                       \
-					"AST  : %S\n"                                                                  \
-					"Other: %S\n"                                                                  \
-					"For     ast member: %S\n"                                                     \
-					"other's ast member: %S\n"                                                     \
-				, code_debug_str(self)                                                             \
-				, code_debug_str(other)                                                            \
-				, code_debug_str(self->ast)                                                        \
-				, code_debug_str(other->ast)                                                       \
-			);                                                                                     \
-		                                                                                           \
-			return false;                                                                          \
-		}                                                                                          \
+	// For members that are the first of a chain of siblings (interfaces, array extents).
+	#define check_member_list( ast )                                                      \
+	{                                                                                     \
+		Code curr       = self->ast;                                                      \
+		Code curr_other = other->ast;                                                     \
+		while ( curr != nullptr && curr_other != nullptr )                                \
+		{                                                                                 \
+			if ( ! code_is_equal(curr, curr_other) )                                      \
+			{                                                                             \
+				log_fmt("\nAST::is_equal: Failed for an entry of " #ast "\n"              \
+						"AST  : %S\n"                                                     \
+						"Other: %S\n"                                                     \
+					, code_debug_str(self)                                                \
+					, code_debug_str(other)                                               \
+				);                                                                        \
+                                                                                          \
+				return false;                                                             \
+			}                                                                             \
+                                                                                          \
+			curr       = curr->Next;                                                      \
+			curr_other = curr_other->Next;                                                \
+		}                                                                                 \
+                                                                                          \
+		if ( curr != nullptr || curr_other != nullptr )                                   \
+		{                                                                                 \
+			log_fmt("\nAST::is_equal: Failed for " #ast " entry count differs\n"          \
+					"AST  : %S\n"                                                         \
+					"Other: %S\n"                                                         \
+				, code_debug_str(self)                                                    \
+				, code_debug_str(other)                                                   \
+			);                                                                            \
+                                                                                          \
+			return false;                                                                 \
+		}                                                                                 \
 	}
 
 		case CT_NewLine:
@@ -733,10 +772,12 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Fwd:
 		case CT_Struct_Fwd:
 		{
+			check_member_val( ModuleFlags );
 			check_member_str( Name );
-			check_member_ast( ParentType );
+			check_member_list( ParentType );
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
+			check_member_ast( Specs );
 
 			return true;
 		}
@@ -746,42 +787,33 @@ bool code_is_equal( Code self, Code other )
 		{
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
-			check_member_ast( ParentType );
+			check_member_list( ParentType );
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
+			check_member_ast( Specs );
 			check_member_ast( Body );
 
 			return true;
 		}
 
 		case CT_Constructor:
-		{
-			check_member_ast( InitializerList );
-			check_member_ast( Params );
-			check_member_ast( Body );
-
-			return true;
-		}
-
 		case CT_Constructor_Fwd:
 		{
+			check_member_str( Name );
+			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
-
-			return true;
-		}
-
-		case CT_Destructor:
-		{
-			check_member_ast( Specs );
 			check_member_ast( Body );
 
 			return true;
 		}
 
+		case CT_Destructor:
 		case CT_Destructor_Fwd:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
+			check_member_ast( Body );
 
 			return true;
 		}
@@ -828,18 +860,6 @@ bool code_is_equal( Code self, Code other )
 		}
 
 		case CT_Function:
-		{
-			check_member_val( ModuleFlags );
-			check_member_str( Name );
-			check_member_ast( ReturnType );
-			check_member_ast( Attributes );
-			check_member_ast( Specs );
-			check_member_ast( Params );
-			check_member_ast( Body );
-
-			return true;
-		}
-
 		case CT_Function_Fwd:
 		{
 			check_member_val( ModuleFlags );
@@ -848,6 +868,8 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( Body );
+			check_member_ast( SuffixSpecs );
 
 			return true;
 		}
@@ -870,149 +892,61 @@ bool code_is_equal( Code self, Code other )
 		}
 
 		case CT_Operator:
-		case CT_Operator_Member:
-		{
-			check_member_val( ModuleFlags );
-			check_member_str( Name );
-			check_member_ast( ReturnType );
-			check_member_ast( Attributes );
-			check_member_ast( Specs );
-			check_member_ast( Params );
-			check_member_ast( Body );
-
-			return true;
-		}
-
 		case CT_Operator_Fwd:
+		case CT_Operator_Member:
 		case CT_Operator_Member_Fwd:
 		{
 			check_member_val( ModuleFlags );
+			check_member_val( Op );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
-
-			return true;
-		}
-
-		case CT_Operator_Cast:
-		{
-			check_member_str( Name );
-			check_member_ast( Specs );
-			check_member_ast( ValueType );
 			check_member_ast( Body );
 
 			return true;
 		}
 
+		case CT_Operator_Cast:
 		case CT_Operator_Cast_Fwd:
 		{
 			check_member_str( Name );
 			check_member_ast( Specs );
 			check_member_ast( ValueType );
+			check_member_ast( Body );
 
 			return true;
 		}
 
 		case CT_Parameters:
 		{
-			if ( self->NumEntries > 1 )
-			{
-				Code curr       = self;
-				Code curr_other = other;
-				while ( curr != nullptr  )
-				{
-					if ( curr )
-					{
-						if ( curr_other == nullptr )
-						{
-							log_fmt("\nAST::is_equal: Failed for parameter, other equivalent param is null\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-							);
-
-							return false;
-						}
-
-						if ( str_are_equal(curr->Name, curr_other->Name) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter name check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->ValueType && ! code_is_equal(curr->ValueType, curr_other->ValueType) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value type check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->Value && ! code_is_equal(curr->Value, curr_other->Value) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-					}
-
-					curr       = curr->Next;
-					curr_other = curr_other->Next;
-				}
-
-				check_member_val( NumEntries );
-
-				return true;
-			}
-
 			check_member_str( Name );
+			check_member_ast( Macro );
 			check_member_ast( ValueType );
 			check_member_ast( Value );
-			check_member_ast( ArrExpr );
+			check_member_ast( PostNameMacro );
+
+			// The first entry tracks the number of entries, the chain itself is what gets compared.
+			check_member_ast( Next );
 
 			return true;
 		}
 
 		case CT_Parameters_Define:
 		{
-			// TODO(ED): Needs implementaton
-			log_failure("code_is_equal: NOT IMPLEMENTED for CT_Parameters_Define");
-			return false;
+			check_member_str( Name );
+			check_member_ast( Next );
+
+			return true;
 		}
 
 		case CT_Preprocess_Define:
 		{
 			check_member_str( Name );
-			check_member_content( Body->Content );
+			check_member_ast( Params );
+			check_member_ast( Body );
+
 			return true;
 		}
 
@@ -1068,9 +1002,14 @@ bool code_is_equal( Code self, Code other )
 		case CT_Typename:
 		{
 			check_member_val( IsParamPack );
+			check_member_val( TypeTag );
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
-			check_member_ast( ArrExpr );
+			check_member_ast( ReturnType );
+			check_member_ast( Params );
+			check_member_list( ArrExpr );
+			check_member_ast( SuffixSpecs );
 
 			return true;
 		}
@@ -1090,6 +1029,8 @@ bool code_is_equal( Code self, Code other )
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( Attributes );
+
+			return true;
 		}
 
 		case CT_Using:
@@ -1112,6 +1053,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Value );
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
+			check_member_val( VarParenthesizedInit );
 			check_member_ast( NextVar );
 
 			return true;
@@ -1120,50 +1062,14 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
+		case CT_Extern_Linkage_Body:
+		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
 		case CT_Struct_Body:
 		case CT_Union_Body:
 		{
-			check_member_ast( Front );
-			check_member_ast( Back );
-
-			Code curr       = self->Front;
-			Code curr_other = other->Front;
-			while ( curr != nullptr )
-			{
-				if ( curr_other == nullptr )
-				{
-					log_fmt("\nAST::is_equal: Failed for body, other equivalent param is null\n"
-							"AST  : %S\n"
-							"Other: %S\n"
-						, code_debug_str(curr)
-						, code_debug_str(other)
-					);
-
-					return false;
-				}
-
-				if ( ! code_is_equal( curr, curr_other ) )
-				{
-					log_fmt( "\nAST::is_equal: Failed for body\n"
-							"AST  : %S\n"
-							"Other: %S\n"
-							"For     ast member: %S\n"
-							"other's ast member: %S\n"
-						, code_debug_str(self)
-						, code_debug_str(other)
-						, code_debug_str(curr)
-						, code_debug_str(curr_other)
-					);
-
-					return false;
-				}
-
-				curr       = curr->Next;
-				curr_other = curr_other->Next;
-			}
-
+			check_member_list( Front );
 			check_member_val( NumEntries );
 
 			return true;
@@ -1171,7 +1077,9 @@ bool code_is_equal( Code self, Code other )
 
 	#undef check_member_val
 	#undef check_member_str
+	#undef check_member_content
 	#undef check_member_ast
+	#undef check_member_list
 	}
 
 	return true;
-- 
2.43.0


From 523bae7a6b338717e2632cb5d42e97a585ff0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 14/58] fix: check the arguments of the upfront constructors as
 documented

---
 base/components/interface.upfront.cpp | 51 +++++++++++++++++++++------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index f0b177f..239958e 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -515,6 +515,12 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_class: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeClass
 	result               = (CodeClass) make_code();
 	result->Name         = cache_str( name );
@@ -555,6 +561,11 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.params && p.params->Type != CT_Parameters_Define ) {
+		log_failure( "gen::def_define: params was not a 'Parameters_Define' type: %S", code_debug_str(p.params) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	CodeDefine
 	result          = (CodeDefine) make_code();
 	result->Type    = CT_Preprocess_Define;
@@ -659,7 +670,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 	else if ( p.type_macro ) {
 		result->UnderlyingTypeMacro = p.type_macro;
 	}
-	else if ( result->Type != CT_Enum_Class_Fwd && result->Type != CT_Enum_Fwd )
+	else if ( result->Type == CT_Enum_Fwd )
 	{
 		log_failure( "gen::def_enum: enum forward declaration must have an underlying type" );
 		GEN_DEBUG_TRAP();
@@ -926,6 +937,12 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		return InvalidCode;
 	}
 
+	if ( p.specs && p.specs->Type != CT_Specifiers ) {
+		log_failure( "gen::def_operator_cast: specs was not a 'Specifiers' type: %S", code_debug_str(p.specs) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeOpCast result = (CodeOpCast) make_code();
 	if (p.body)
 	{
@@ -1040,6 +1057,12 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_struct: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeStruct
 	result              = (CodeStruct) make_code();
 	result->ModuleFlags = p.mflags;
@@ -1086,6 +1109,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 
 		default:
 			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %S", code_debug_str(declaration) );
+			return InvalidCode;
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
@@ -1150,6 +1174,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		case CT_Struct_Fwd:
 		case CT_Union:
 		case CT_Typename:
+		case CT_Untyped:
 			break;
 		default:
 			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %S", code_debug_str((Code)type) );
@@ -1162,14 +1187,23 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		return InvalidCode;
 	}
 
-	// Registering the type.
-	CodeTypename registered_type = def_type( name );
-	if ( ! registered_type ) {
-		log_failure( "gen::def_typedef: failed to register type" );
+	if ( name.Len <= 0 && type->Type != CT_Untyped ) {
+		log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %S", code_debug_str(type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 
+	if ( name.Len > 0 )
+	{
+		// Registering the type.
+		CodeTypename registered_type = def_type( name );
+		if ( ! registered_type ) {
+			log_failure( "gen::def_typedef: failed to register type" );
+			GEN_DEBUG_TRAP();
+			return InvalidCode;
+		}
+	}
+
 	CodeTypedef
 	result                 = (CodeTypedef) make_code();
 	result->Type           = CT_Typedef;
@@ -1178,11 +1212,6 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 
 	if ( name.Len <= 0  )
 	{
-		if (type->Type != CT_Untyped) {
-			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %S", code_debug_str(type) );
-			GEN_DEBUG_TRAP();
-			return InvalidCode;
-		}
 		result->Name       = cache_str( type->Name );
 		result->IsFunction = true;
 	}
@@ -1223,7 +1252,7 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 
 CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 {
-	if ( ! name_check( def_using, name ) || null_check( def_using, type ) ) {
+	if ( ! name_check( def_using, name ) || ! null_check( def_using, type ) ) {
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-- 
2.43.0


From eb0fc31ed270a9cd7fc7977588504816f1dcbf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 15/58] fix: allow interfaces on a type without a parent

---
 base/components/inlines.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index aadf92f..3a8434a 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -477,12 +477,16 @@ void class_add_interface( CodeClass self, CodeTypename type )
 	GEN_ASSERT(self);
 	GEN_ASSERT(type);
 	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
+
+	// Were adding an interface to parent type, so we need to make sure the parent type is public.
+	self->ParentAccess = AccessSpec_Public;
+	// If your planning on adding a proper parent,
+	// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+
+	if ( possible_slot == nullptr )
 	{
-		// Were adding an interface to parent type, so we need to make sure the parent type is public.
-		self->ParentAccess = AccessSpec_Public;
-		// If your planning on adding a proper parent,
-		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+		self->ParentType = type;
+		return;
 	}
 
 	while ( possible_slot->Next != nullptr )
@@ -686,12 +690,16 @@ inline
 void struct_add_interface(CodeStruct self, CodeTypename type )
 {
 	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
+
+	// Were adding an interface to parent type, so we need to make sure the parent type is public.
+	self->ParentAccess = AccessSpec_Public;
+	// If your planning on adding a proper parent,
+	// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+
+	if ( possible_slot == nullptr )
 	{
-		// Were adding an interface to parent type, so we need to make sure the parent type is public.
-		self->ParentAccess = AccessSpec_Public;
-		// If your planning on adding a proper parent,
-		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
+		self->ParentType = type;
+		return;
 	}
 
 	while ( possible_slot->Next != nullptr )
-- 
2.43.0


From 9c967a5fc06b3e2fef5763386e4a51b9fb118a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 16/58] fix: return the node built by untyped_fmt and
 untyped_token_fmt

---
 base/components/interface.untyped.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 69d74bb..352530d 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -93,7 +93,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 Code untyped_str( Str content )
 {
-	if ( content.Len == 0 )
+	if ( content.Len <= 0 || content.Ptr == nullptr )
 	{
 		log_failure( "untyped_str: empty string" );
 		return InvalidCode;
@@ -134,7 +134,8 @@ Code untyped_fmt( char const* fmt, ...)
 	Code
 	result          = make_code();
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( content );
+	result->Name    = cache_str( content );
+	result->Content = result->Name;
 
 	if ( result->Name.Len == 0 )
 	{
@@ -166,7 +167,8 @@ Code untyped_token_fmt( s32 num_tokens, char const* fmt, ... )
 	Code
 	result          = make_code();
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( buf_str );
+	result->Name    = cache_str( buf_str );
+	result->Content = result->Name;
 
 	if ( result->Name.Len == 0 )
 	{
-- 
2.43.0


From 97c4d849ebdc19eb4c2404c29f5e549d7056ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 17/58] fix: complete operator validation and link struct and
 union bodies to their owner

---
 base/components/inlines.hpp           |  7 ++-----
 base/components/interface.upfront.cpp | 22 ++++++++++++++++------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 3a8434a..b5b6e6d 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -530,14 +530,11 @@ CodeParams params_get(CodeParams self, s32 idx )
 {
 	GEN_ASSERT(self);
 	CodeParams param = self;
-	do
+	while ( param != nullptr && idx > 0 )
 	{
-		if ( ++ param != nullptr )
-			return NullCode;
-
 		param = cast(CodeParams, cast(Code, param)->Next);
+		idx --;
 	}
-	while ( --idx );
 
 	return param;
 }
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 239958e..3e18ab6 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -51,6 +51,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	if ( ! ret_type )
 	{
 		log_failure("gen::def_operator: ret_type is null but is required by operator %S", operator_to_str(op));
+		return OpValResult_Fail;
 	}
 
 	if ( ret_type->Type != CT_Typename )
@@ -139,7 +140,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					case 2:
 						check_param_eq_ret();
 
-						if ( ! code_is_equal((Code)params_get(params_code, 1), (Code)t_int ) )
+						if ( ! code_is_equal((Code)params_get(params_code, 1)->ValueType, (Code)t_int ) )
 						{
 							log_failure("gen::def_operator: "
 								"operator %S requires second parameter of non-member definition to be int for post-decrement",
@@ -157,6 +158,8 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						return OpValResult_Fail;
 				}
 			}
+			else
+				is_member_symbol = true;
 			break;
 
 		case Op_Unary_Plus:
@@ -331,7 +334,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 				);
 				return OpValResult_Fail;
 			}
-			else
+			else if ( ! params_code || op == Op_MemberOfPointer )
 			{
 				is_member_symbol = true;
 			}
@@ -347,6 +350,11 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 
 		case Op_Subscript:
 		case Op_FunctionCall:
+			check_params();
+			// These may only be defined as members.
+			is_member_symbol = true;
+			break;
+
 		case Op_Comma:
 			check_params();
 			break;
@@ -1070,8 +1078,9 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		result->Name = cache_str( name );
 
 	if ( p.body ) {
-		result->Type = CT_Struct;
-		result->Body = p.body;
+		result->Type         = CT_Struct;
+		result->Body         = p.body;
+		result->Body->Parent = cast(Code, result);
 	}
 	else {
 		result->Type = CT_Struct_Fwd;
@@ -1242,8 +1251,9 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 	CodeUnion
 	result              = (CodeUnion) make_code();
 	result->ModuleFlags = p.mflags;
-	result->Type        = CT_Union;
-	result->Body        = body;
+	result->Type         = CT_Union;
+	result->Body         = body;
+	result->Body->Parent = cast(Code, result);
 	result->Attributes  = p.attributes;
 	if ( name.Ptr )
 		result->Name = cache_str( name );
-- 
2.43.0


From d80c65eeb1d57519263b87e85c1b879288cb662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 18/58] fix: make the array builders agree with the variadic
 ones and refuse absent parameters

---
 base/components/interface.upfront.cpp | 39 +++++++++++++++------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 3e18ab6..255630a 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1404,7 +1404,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Function_Body;
+	result->Type = CT_Class_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1439,7 +1439,9 @@ CodeDefineParams def_define_params( s32 num, ... )
 	Code_POD         pod   = va_arg(va, Code_POD);
 	CodeDefineParams param = pcast( CodeDefineParams, pod );
 
-	null_check( def_define_params, param );
+	if ( ! null_check( def_define_params, param ) )
+		return InvalidCode;
+
 	if ( param->Type != CT_Parameters_Define ) {
 		log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 		return InvalidCode;
@@ -1450,6 +1452,9 @@ CodeDefineParams def_define_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeDefineParams, pod );
+		if ( ! null_check( def_define_params, param ) )
+			return InvalidCode;
+
 		if ( param->Type != CT_Parameters_Define ) {
 			log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 			return InvalidCode;
@@ -1474,14 +1479,12 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
-	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
+	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams
-	result            = (CodeDefineParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		define_params_append(result, current );
 	}
@@ -1862,7 +1865,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Global_Body;
+	result->Type = CT_Namespace_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1896,7 +1899,9 @@ CodeParams def_params( s32 num, ... )
 	Code_POD  pod   = va_arg(va, Code_POD);
 	CodeParams param = pcast( CodeParams, pod );
 
-	null_check( def_params, param );
+	if ( ! null_check( def_params, param ) )
+		return InvalidCode;
+
 	if ( param->Type != CT_Parameters ) {
 		log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 		return InvalidCode;
@@ -1907,6 +1912,9 @@ CodeParams def_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeParams, pod );
+		if ( ! null_check( def_params, param ) )
+			return InvalidCode;
+
 		if ( param->Type != CT_Parameters ) {
 			log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 			return InvalidCode;
@@ -1931,15 +1939,12 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
-	CodeParams current = (CodeParams)code_duplicate(* codes);
+	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams
-	result            = (CodeParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	result->ValueType = current->ValueType;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeParams result = (CodeParams) code_duplicate(current);
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		params_append(result, current );
 	}
-- 
2.43.0


From b19d4aa9fb3637cf9a76ff603c2f00f784bf83a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 19/58] fix: unlink the copy made when appending an owned
 entry, allow empty bodies to be iterated

---
 base/components/inlines.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index b5b6e6d..4c444e8 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -327,8 +327,11 @@ void code_append( Code self, Code other )
 	GEN_ASSERT(other);
 	GEN_ASSERT_MSG(self != other, "Attempted to recursively append Code AST to itself.");
 
-	if ( other->Parent != nullptr )
-		other = code_duplicate(other);
+	if ( other->Parent != nullptr ) {
+		other       = code_duplicate(other);
+		other->Prev = NullCode;
+		other->Next = NullCode;
+	}
 
 	other->Parent = self;
 
@@ -460,6 +463,9 @@ Code begin_CodeBody( CodeBody body) {
 forceinline
 Code end_CodeBody(CodeBody body ){
 	GEN_ASSERT(body);
+	if ( body == nullptr || body->Back == nullptr )
+		return NullCode;
+
 	return body->Back->Next;
 }
 inline
-- 
2.43.0


From bbe164087c4a1f5d10f10f6acf61ccb9d70b6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 20/58] fix: code_entry stops at the end of the body

---
 base/components/inlines.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 4c444e8..7ae0dc5 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -375,16 +375,13 @@ Code* code_entry( Code self, u32 idx )
 {
 	GEN_ASSERT(self != nullptr);
 	Code* current = & self->Front;
-	while ( idx >= 0 && current != nullptr )
+	while ( idx > 0 && ( * current ) != nullptr )
 	{
-		if ( idx == 0 )
-			return rcast( Code*, current);
-
 		current = & ( * current )->Next;
 		idx--;
 	}
 
-	return rcast( Code*, current);
+	return idx == 0 ? rcast( Code*, current) : nullptr;
 }
 forceinline
 bool code_is_valid(Code self)
-- 
2.43.0


From 3c1ad960414357b3e844309a748922fbd57788b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 21/58] fix: params_append links every entry given and resets
 the links of copies

---
 base/components/inlines.hpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 7ae0dc5..4ffc646 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -511,22 +511,37 @@ void params_append( CodeParams appendee, CodeParams other )
 	Code self  = cast(Code, appendee);
 	Code entry = cast(Code, other);
 
-	if ( entry->Parent != nullptr )
-		entry = code_duplicate( entry );
+	// Only the head of a list has its last entry set, anything else is a single entry.
+	Code last = entry;
+	if ( entry->Last != nullptr )
+		last = entry->Last;
 
-	entry->Parent = self;
-
-	if ( self->Last == nullptr )
+	for (;;)
 	{
+		Code next    = entry->Next;
+		bool at_last = entry == last;
+
+		if ( entry->Parent != nullptr )
+			entry = code_duplicate( entry );
+
+		entry->Parent     = self;
+		entry->Last       = NullCode;
+		entry->Next       = NullCode;
+		entry->NumEntries = 1;
+
+		if ( self->Last == nullptr )
+			self->Next = entry;
+		else
+			self->Last->Next = entry;
+
 		self->Last = entry;
-		self->Next = entry;
 		self->NumEntries++;
-		return;
-	}
 
-	self->Last->Next = entry;
-	self->Last       = entry;
-	self->NumEntries++;
+		if ( at_last )
+			return;
+
+		entry = next;
+	}
 }
 inline
 CodeParams params_get(CodeParams self, s32 idx )
-- 
2.43.0


From 034a443d14743845d236fa4dfa491813ea7251f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 22/58] fix: give each class and struct its own list of
 interfaces

---
 base/components/inlines.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 4ffc646..ef34f1b 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -481,6 +481,10 @@ void class_add_interface( CodeClass self, CodeTypename type )
 	GEN_ASSERT(type);
 	CodeTypename possible_slot = self->ParentType;
 
+	// The typename may be used elsewhere, the list's links must be its own.
+	type       = cast(CodeTypename, code_duplicate( cast(Code, type) ));
+	type->Next = NullCode;
+
 	// Were adding an interface to parent type, so we need to make sure the parent type is public.
 	self->ParentAccess = AccessSpec_Public;
 	// If your planning on adding a proper parent,
@@ -492,6 +496,12 @@ void class_add_interface( CodeClass self, CodeTypename type )
 		return;
 	}
 
+	if ( possible_slot->Next == nullptr )
+	{
+		possible_slot    = cast(CodeTypename, code_duplicate( cast(Code, possible_slot) ));
+		self->ParentType = possible_slot;
+	}
+
 	while ( possible_slot->Next != nullptr )
 	{
 		possible_slot = cast(CodeTypename, possible_slot->Next);
@@ -706,6 +716,10 @@ void struct_add_interface(CodeStruct self, CodeTypename type )
 {
 	CodeTypename possible_slot = self->ParentType;
 
+	// The typename may be used elsewhere, the list's links must be its own.
+	type       = cast(CodeTypename, code_duplicate( cast(Code, type) ));
+	type->Next = NullCode;
+
 	// Were adding an interface to parent type, so we need to make sure the parent type is public.
 	self->ParentAccess = AccessSpec_Public;
 	// If your planning on adding a proper parent,
@@ -717,6 +731,12 @@ void struct_add_interface(CodeStruct self, CodeTypename type )
 		return;
 	}
 
+	if ( possible_slot->Next == nullptr )
+	{
+		possible_slot    = cast(CodeTypename, code_duplicate( cast(Code, possible_slot) ));
+		self->ParentType = possible_slot;
+	}
+
 	while ( possible_slot->Next != nullptr )
 	{
 		possible_slot = cast(CodeTypename, possible_slot->Next);
-- 
2.43.0


From fc9041e5f328b2e806635ddb158a5cb24cb7f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 23/58] fix: end_CodeSpecifiers handles null as
 begin_CodeSpecifiers does

---
 base/components/inlines.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index ef34f1b..dc2370a 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -701,6 +701,9 @@ Specifier* begin_CodeSpecifiers(CodeSpecifiers self)
 forceinline
 Specifier* end_CodeSpecifiers(CodeSpecifiers self)
 {
+	if ( self == nullptr )
+		return nullptr;
+
 	return self->ArrSpecs + self->NumEntries;
 }
 forceinline
-- 
2.43.0


From a13a7f66b8dc07c2b67e66de35812dbab9bd8b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 24/58] fix: define strbuilder_are_equal and
 strbuilder_contains_str under their declared names

---
 base/dependencies/strings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 866e944..adcea76 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -385,7 +385,7 @@ bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 }
 
 inline
-bool strbuilder_are_equal_string(StrBuilder const lhs, StrBuilder const rhs)
+bool strbuilder_are_equal(StrBuilder const lhs, StrBuilder const rhs)
 {
 	if (strbuilder_length(lhs) != strbuilder_length(rhs))
 		return false;
@@ -422,7 +422,7 @@ char* strbuilder_back(StrBuilder str) {
 }
 
 inline
-bool strbuilder_contains_StrC(StrBuilder const str, Str substring)
+bool strbuilder_contains_str(StrBuilder const str, Str substring)
 {
 	StrBuilderHeader const* header = rcast(StrBuilderHeader const*, scast(char const*, str) - sizeof(StrBuilderHeader));
 
-- 
2.43.0


From 1872c2573cc6f00b7a4ebe406bfc17016d1cac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 25/58] fix: define CodeClass's remaining member operations

---
 base/components/code_types.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/components/code_types.hpp b/base/components/code_types.hpp
index bbf885b..e4a0ccf 100644
--- a/base/components/code_types.hpp
+++ b/base/components/code_types.hpp
@@ -187,10 +187,10 @@ struct CodeClass
 {
 #if ! GEN_C_LIKE_CPP
 	Using_Code( CodeClass );
-	forceinline void       add_interface( CodeType interface );
-	forceinline StrBuilder to_strbuilder();
-	forceinline void       to_strbuilder_def( StrBuilder& result );
-	forceinline void       to_strbuilder_fwd( StrBuilder& result );
+	forceinline void       add_interface( CodeTypename interface );
+	forceinline StrBuilder to_strbuilder()                         { return class_to_strbuilder(* this); }
+	forceinline void       to_strbuilder_def( StrBuilder& result ) { return class_to_strbuilder_def(* this, & result); }
+	forceinline void       to_strbuilder_fwd( StrBuilder& result ) { return class_to_strbuilder_fwd(* this, & result); }
 #endif
 	Using_CodeOps( CodeClass );
 	forceinline operator Code() { return * rcast( Code*, this ); }
@@ -961,6 +961,10 @@ struct CodeStruct
 	AST_Struct* ast;
 };
 
+#if ! GEN_C_LIKE_CPP
+forceinline void CodeClass::add_interface( CodeTypename interface ) { return class_add_interface(* this, interface); }
+#endif
+
 #undef Define_CodeType
 #undef Using_Code
 #undef Using_CodeOps
-- 
2.43.0


From 3e78166cfd8d63e48fdc8205aa3d858d6eb4c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:22 +0000
Subject: [PATCH 26/58] fix: keep both attribute lists around class member
 specifiers

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 1c37e99..7018f9c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1063,8 +1063,8 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 						attributes->Content = attributes->Name;
 						// <Attributes> <Specifiers> <Attributes>
 					}
-
-					attributes = more_attributes;
+					else
+						attributes = more_attributes;
 				}
 
 				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
-- 
2.43.0


From feb9c7175f03405cad38afabcd63b8b6d3b011a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:09 +0000
Subject: [PATCH 27/58] fix: keep the default/delete expression of constructors
 and destructors

---
 base/components/parser.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 7018f9c..9cdacad 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3557,6 +3557,15 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	else if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
 	{
 		body = cast(CodeBody, parse_assignment_expression());
+		if ( cast(Code, body) == Code_Invalid )
+		{
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+		// <Name> ( <Parameters> ) = <Expression>
+
+		eat( Tok_Statement_End );
+		// <Name> ( <Parameters> ) = <Expression>;
 	}
 	else
 	{
@@ -3587,7 +3596,11 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 		result->Type = CT_Constructor;
 	}
 	else
+	{
+		// Possibly a default or delete expression
+		result->Body = cast(Code, body);
 		result->Type = CT_Constructor_Fwd;
+	}
 
 	if ( inline_cmt )
 		result->InlineCmt = inline_cmt;
@@ -3786,7 +3799,11 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		result->Type = CT_Destructor;
 	}
 	else
+	{
+		// Possibly a default expression
+		result->Body = cast(Code, body);
 		result->Type = CT_Destructor_Fwd;
+	}
 
 	if ( inline_cmt )
 		result->InlineCmt = inline_cmt;
-- 
2.43.0


From bad825f276878c051b87907f452fdee7b19a7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 28/58] fix: keep every macro specifier after a function's
 parameters

---
 base/components/parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9cdacad..b4ef25e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1431,7 +1431,17 @@ CodeFn parse_function_after_name(
 		Macro* macro = lookup_macro( currtok.Text );
 		if (macro && tok_is_specifier(currtok))
 		{
-			suffix_specs = parse_simple_preprocess(Tok_Preprocess_Macro_Expr);
+			Code macro_spec = parse_simple_preprocess(Tok_Preprocess_Macro_Expr);
+			if ( suffix_specs )
+			{
+				StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, suffix_specs->Content.Len + macro_spec->Content.Len + 1 );
+				strbuilder_append_fmt( & fused, "%S %S", suffix_specs->Content, macro_spec->Content );
+
+				suffix_specs->Name    = cache_str( strbuilder_to_str(fused) );
+				suffix_specs->Content = suffix_specs->Name;
+			}
+			else
+				suffix_specs = macro_spec;
 			continue;
 		}
 		if ( specifiers == nullptr )
-- 
2.43.0


From 87f260d048f8b250a3c93a61222b1e43daa6fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 29/58] fix: accept one initializer per variable

---
 base/components/parser.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b4ef25e..d59e3dc 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3291,8 +3291,7 @@ CodeVar parse_variable_after_name(
 		// <Attributes> <Specifiers> <ValueType> <Name> = <Expression>
 		expr = parse_assignment_expression();
 	}
-
-	if ( currtok.Type == Tok_BraceCurly_Open )
+	else if ( currtok.Type == Tok_BraceCurly_Open )
 	{
 		Token expr_tok = currtok;
 
@@ -3316,8 +3315,7 @@ CodeVar parse_variable_after_name(
 		expr              = untyped_str( expr_tok.Text );
 		// <Attributes> <Specifiers> <ValueType> <Name> = { <Expression> }
 	}
-
-	if ( currtok.Type == Tok_Paren_Open )
+	else if ( currtok.Type == Tok_Paren_Open )
 	{
 		eat( Tok_Paren_Open);
 		// <Attributes> <Specifiers> <ValueType> <Name> (
-- 
2.43.0


From a69def5b01860ebd8475905963ba5b2c67bdc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 30/58] fix: keep a parameter's macros with that parameter

---
 base/components/parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index d59e3dc..6e89c65 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2877,7 +2877,8 @@ CodeParams parse_params( bool use_template_capture )
 	if ( name.Text.Len > 0 )
 		result->Name = cache_str( name.Text );
 
-	result->ValueType = type;
+	result->PostNameMacro = post_name_macro;
+	result->ValueType     = type;
 
 	if ( value )
 		result->Value = value;
@@ -2892,6 +2893,10 @@ CodeParams parse_params( bool use_template_capture )
 		Code type  = { nullptr };
 		Code value = { nullptr };
 
+		macro           = NullCode;
+		post_name_macro = NullCode;
+		name            = NullToken;
+
 		if ( check( Tok_Varadic_Argument ) )
 		{
 			eat( Tok_Varadic_Argument );
-- 
2.43.0


From 90da1b07ae86c09953504cb9c57357d2c12c1e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 31/58] fix: friend declarations consume their own statement
 end once

---
 base/components/parser.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6e89c65..b1e0a13 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4206,22 +4206,28 @@ CodeFriend parser_parse_friend()
 	}
 
 	// Operator declaration or definition
-	if ( currtok.Type == Tok_Decl_Operator ) {
+	else if ( currtok.Type == Tok_Decl_Operator ) {
 		op = parse_operator_after_ret_type( ModuleFlag_None, NullCode, specifiers, type );
 	}
 
 	CodeComment inline_cmt = NullCode;
-	if ( function && function->Type == CT_Function_Fwd )
+	// Functions and operators consume their own statement end and inline comment.
+	if ( ! function && ! op )
 	{
+		if ( specifiers )
+		{
+			log_failure( "Specifiers are not allowed on a friend type\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
 		// friend <Type>;
-		// friend <ReturnType> <Name> ( <Parameters> );
 
 		if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
 			inline_cmt = parse_comment();
 		// friend <Type>; <InlineCmt>
-		// friend <ReturnType> <Name> ( <Parameters> ); <InlineCmt>
 	}
 
 	CodeFriend result = ( CodeFriend )make_code();
-- 
2.43.0


From e7f802e187af2d3737d5f2b6d99a5c64add41625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 32/58] fix: keep the inline comment of conversion operator
 declarations

---
 base/components/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b1e0a13..1e7a6d6 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4526,6 +4526,9 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	result->ValueType = cast(CodeTypename, type);
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From 47926ac8c27980ed1ee385a42cebcdfd845a08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 33/58] fix: keep alias attributes and using directive comments

---
 base/components/parser.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 1e7a6d6..094121e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5620,9 +5620,6 @@ CodeUsing parser_parse_using()
 		
 		if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ))
 		{
-			attributes = parse_attributes();
-			// <ModuleFlags> using <Name> <Attributes>
-
 			eat( Tok_Operator );
 			// <ModuleFlags> using <Name> <Attributes> =
 
@@ -5665,11 +5662,11 @@ CodeUsing parser_parse_using()
 
 		if ( attributes )
 			result->Attributes = attributes;
-
-		if ( inline_cmt )
-			result->InlineCmt = inline_cmt;
 	}
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From 315df86779af7c9cde80b0d3a19c868738c9c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:54 +0000
Subject: [PATCH 34/58] fix: pure destructors without other specifiers

---
 base/components/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 094121e..36e9703 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3764,7 +3764,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 			eat( Tok_Number );
 			// <Virtual Specifier> ~<Name>() = 0
 
-			specifiers_append(specifiers, Spec_Pure );
+			if ( specifiers )
+				specifiers_append(specifiers, Spec_Pure );
+			else
+				specifiers = def_specifier( Spec_Pure );
 		}
 		else if ( left && c_str_compare_len( upcoming.Text.Ptr, "default", sizeof("default") - 1 ) == 0) 
 		{
-- 
2.43.0


From 94b4bd7d3f1f8c7606b80b49df2987f85657e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:06 +0000
Subject: [PATCH 35/58] fix: name destructors declared within their class

---
 base/components/parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 36e9703..9879808 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3806,6 +3806,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		prefix_identifier.Text.Len += 1 + identifier.Text.Len;
 		result->Name = cache_str( prefix_identifier.Text );
 	}
+	else {
+		StrBuilder name = strbuilder_fmt_buf( _ctx->Allocator_Temp, "~%S", identifier.Text );
+		result->Name    = cache_str( strbuilder_to_str(name) );
+	}
 
 	if ( specifiers )
 		result->Specs = specifiers;
-- 
2.43.0


From 1bb50231dbec16906985c17c31f17213bc1b0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:42 +0000
Subject: [PATCH 36/58] fix: parse const return types in parse_function and
 parse_operator instead of looping forever

---
 base/components/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9879808..6be264c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4290,8 +4290,9 @@ CodeFn parser_parse_function()
 				return InvalidCode;
 		}
 
+		// Ignore const it will be handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
 			log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
@@ -4396,8 +4397,9 @@ CodeOperator parser_parse_operator()
 				return InvalidCode;
 		}
 
+		// Ignore const it will be handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		if ( NumSpecifiers >= AST_ArrSpecs_Cap ) {
 			log_failure( "More specifiers than a specifiers AST can hold (%d)\n%SB", AST_ArrSpecs_Cap, parser_to_strbuilder(_ctx->parser) );
-- 
2.43.0


From ade3714e62f4997bd8e5e76792104a61afeaec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:09 +0000
Subject: [PATCH 37/58] fix: search back from operator* without looping forever

---
 base/components/parser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6be264c..e6ddade 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2252,14 +2252,15 @@ CodeOperator parse_operator_after_ret_type(
 
 			else
 			{
-				Token finder = prevtok;
-				while ( finder.Type != Tok_Decl_Operator )
+				s32 finder = _ctx->parser.Tokens.Idx - 1;
+				while ( finder >= 0 && _ctx->parser.Tokens.Arr[ finder ].Type != Tok_Decl_Operator )
 				{
-					if ( finder.Type == Tok_Identifier)
+					if ( _ctx->parser.Tokens.Arr[ finder ].Type == Tok_Identifier )
 					{
 						op = Op_Indirection;
 						break;
 					}
+					finder --;
 				}
 
 				if ( op == Op_Invalid)
-- 
2.43.0


From 3316ac068c75eb3b11d3e98f046d7a1cafda5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:36 +0000
Subject: [PATCH 38/58] fix: stop parameter, enum value and union body loops at
 the end of the tokens

---
 base/components/parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e6ddade..4687531 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2845,7 +2845,7 @@ CodeParams parse_params( bool use_template_capture )
 
 			s32 capture_level  = 0;
 			s32 template_level = 0;
-			while ( (left && ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0) )
+			while ( left && ((( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0)) )
 			{
 				if (currtok.Text.Ptr[ 0 ] == '<')
 					++ template_level;
@@ -2959,10 +2959,10 @@ CodeParams parse_params( bool use_template_capture )
 
 				s32 capture_level  = 0;
 				s32 template_level = 0;
-				while ( (left
-				&& currtok.Type != Tok_Comma
+				while ( left
+				&& ((currtok.Type != Tok_Comma
 				&& template_level >= 0
-				&& CheckEndParams()) || (capture_level > 0 || template_level > 0) )
+				&& CheckEndParams()) || (capture_level > 0 || template_level > 0)) )
 				{
 					if (currtok.Text.Ptr[ 0 ] == '<')
 						++ template_level;
@@ -3983,7 +3983,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 						eat( Tok_Operator );
 						// <Name> =
 
-						while ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) {
+						while ( left && currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) {
 							eat( currtok.Type );
 						}
 					}
@@ -5478,7 +5478,7 @@ CodeUnion parser_parse_union( bool inplace_def )
 		body = cast(CodeBody, make_code());
 		body->Type = CT_Union_Body;
 
-		while ( ! check_noskip( Tok_BraceCurly_Close ) )
+		while ( left && currtok_noskip.Type != Tok_BraceCurly_Close )
 		{
 			if ( currtok_noskip.Type == Tok_Preprocess_Hash )
 				eat( Tok_Preprocess_Hash );
-- 
2.43.0


From 440b177c681871afae925fd100f8a8786d0a499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:27 +0000
Subject: [PATCH 39/58] fix: consume any kind of macro used as a function
 specifier

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4687531..f8bdf65 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1431,7 +1431,7 @@ CodeFn parse_function_after_name(
 		Macro* macro = lookup_macro( currtok.Text );
 		if (macro && tok_is_specifier(currtok))
 		{
-			Code macro_spec = parse_simple_preprocess(Tok_Preprocess_Macro_Expr);
+			Code macro_spec = parse_simple_preprocess(currtok.Type);
 			if ( suffix_specs )
 			{
 				StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, suffix_specs->Content.Len + macro_spec->Content.Len + 1 );
-- 
2.43.0


From 80e8bd9f0789a1477e78e6a5b88c3968079f48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:55 +0000
Subject: [PATCH 40/58] fix: consume unexpected specifiers in variable
 declaration lists

---
 base/components/parser.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f8bdf65..a5fc570 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3452,13 +3452,11 @@ CodeVar parse_variable_declaration_list()
 			switch ( spec )
 			{
 				case Spec_Const:
-					if ( specifiers->NumEntries && specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
+					if ( ! specifiers || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
 					{
 						log_failure( "Error, const specifier must come after pointer specifier for variable declaration proceeding comma\n"
 						"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%SB"
 						, parser_to_strbuilder(_ctx->parser) );
-
-						specifiers_append(specifiers, spec );
 					}
 				break;
 
@@ -3472,7 +3470,6 @@ CodeVar parse_variable_declaration_list()
 					log_failure( "Error, invalid specifier '%S' proceeding comma\n"
 					"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%S"
 					, currtok.Text, strbuilder_to_str( parser_to_strbuilder(_ctx->parser)) );
-					continue;
 				}
 				break;
 			}
-- 
2.43.0


From ff6fc20f80faf2524941cbfc2207d11c089ac389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:22 +0000
Subject: [PATCH 41/58] fix: reject enum entries and define parameters that
 cannot be consumed

---
 base/components/parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a5fc570..a36a8e6 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3664,7 +3664,10 @@ CodeDefine parser_parse_define()
 		}
 		
 		while( left && currtok.Type != Tok_Paren_Close ) {
-			eat( Tok_Comma );
+			if ( ! eat( Tok_Comma ) ) {
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			// #define <Name> ( <param>, 
 
 			CodeDefineParams next_param = (CodeDefineParams) make_code();
@@ -3972,7 +3975,10 @@ CodeEnum parser_parse_enum( bool inplace_def )
 				{
 					Token entry = currtok;
 
-					eat( Tok_Identifier);
+					if ( ! eat( Tok_Identifier) ) {
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
 					// <Name>
 
 					if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '=' )
-- 
2.43.0


From f405ef5fe3f5f79cf66d52ba5236dd15d11a332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 42/58] fix: recognise GNU and MSVC attribute tokens as
 attributes

---
 base/components/parser_types.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 6c93d65..edcd3cd 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -61,7 +61,9 @@ bool tok_is_access_specifier(Token tok) {
 
 forceinline
 bool tok_is_attribute(Token tok) {
-	return bitfield_is_set( u32, tok.Flags, TF_Attribute );
+	return bitfield_is_set( u32, tok.Flags, TF_Attribute )
+		|| tok.Type == Tok_Attribute_Open || tok.Type == Tok_Decl_GNU_Attribute || tok.Type == Tok_Decl_MSVC_Attribute
+		|| tok.Type > Tok___Attributes_Start;
 }
 
 forceinline
-- 
2.43.0


From 439e36735cb94dc1ab659fe747d52430ded2a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:41 +0000
Subject: [PATCH 43/58] fix: reject unions with a member that fails to parse

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a36a8e6..f83302e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5559,6 +5559,13 @@ CodeUnion parser_parse_union( bool inplace_def )
 				break;
 			}
 
+			if ( member == Code_Invalid )
+			{
+				log_failure( "Failed to parse member\n%s", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
+
 			if ( member )
 				body_append(body, member );
 		}
-- 
2.43.0


From f90dcbcb6a78cdb00a5bb40ab1ec7fa1cb45bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:44 +0000
Subject: [PATCH 44/58] fix: check that a last specifier exists in variable
 declaration lists

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f83302e..4c66730 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3452,7 +3452,7 @@ CodeVar parse_variable_declaration_list()
 			switch ( spec )
 			{
 				case Spec_Const:
-					if ( ! specifiers || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
+					if ( ! specifiers || specifiers->NumEntries < 1 || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
 					{
 						log_failure( "Error, const specifier must come after pointer specifier for variable declaration proceeding comma\n"
 						"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%SB"
-- 
2.43.0


From 3673aa48260035f621190b408db9fd2b1c4616bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:10 +0000
Subject: [PATCH 45/58] fix: do not step past a carriage return that ends the
 text

---
 base/components/lexer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 703e9e0..fc8f4c8 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -103,11 +103,10 @@ void lexer_end_line( LexContext* ctx )
 	while ( ctx->left && (* ctx->scanner) == ' ' )
 		move_forward();
 
-	if ( ctx->left && (* ctx->scanner) == '\r' ) {
+	if ( ctx->left && (* ctx->scanner) == '\r' )
 		move_forward();
-		move_forward();
-	}
-	else if ( ctx->left && (* ctx->scanner) == '\n' )
+
+	if ( ctx->left && (* ctx->scanner) == '\n' )
 		move_forward();
 }
 #define end_line() lexer_end_line(ctx)
-- 
2.43.0


From 51bb2f4f8c3588560b61e9318318c5beeff1bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:35 +0000
Subject: [PATCH 46/58] fix: stop unsupported directives at the end of the text

---
 base/components/lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index fc8f4c8..5c81e4d 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -337,6 +337,9 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				break;
 			}
 
+			if ( ctx->left == 0 )
+				break;
+
 			move_forward();
 			ctx->token.Text.Len++;
 		}
-- 
2.43.0


From 107aee9b41fbafe5a6a0d283f669538a278f21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:59 +0000
Subject: [PATCH 47/58] fix: reject a define directive without a name at the
 end of the text

---
 base/components/lexer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 5c81e4d..17ad04b 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -114,6 +114,15 @@ void lexer_end_line( LexContext* ctx )
 // TODO(Ed): We need to to attempt to recover from a lex failure?
 s32 lex_preprocessor_define( LexContext* ctx )
 {
+	if ( ctx->left == 0 )
+	{
+		log_failure("lex_preprocessor_define(%d, %d): Expected a name after #define (ran out of characters...)\n"
+			, ctx->line
+			, ctx->column
+		);
+		return Lex_ReturnNull;
+	}
+
 	Token name = { { ctx->scanner, 1 }, Tok_Identifier, ctx->line, ctx->column, TF_Preprocess };
 	move_forward();
 
-- 
2.43.0


From c987f356a00a2af455626667cbf127800adc6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:25 +0000
Subject: [PATCH 48/58] fix: reject include paths that are not terminated

---
 base/components/lexer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 17ad04b..a6cae0f 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -409,6 +409,15 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			preprocess_content.Text.Len++;
 		}
 
+		if ( ctx->left == 0 )
+		{
+			log_failure( "gen::Parser::lex: Include path is not terminated (%d, %d)"
+				, preprocess_content.Line
+				, preprocess_content.Column
+			);
+			return Lex_ReturnNull;
+		}
+
 		move_forward();
 		preprocess_content.Text.Len++;
 
-- 
2.43.0


From 0fdda24619ff668321a0e7c875945de9e4862fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:52 +0000
Subject: [PATCH 49/58] fix: stop unterminated block comments at the end of the
 text

---
 base/components/lexer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index a6cae0f..b86e8fc 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1150,7 +1150,7 @@ TokArray lex( Str content )
 						move_forward();
 
 						bool star   = (* ctx->scanner)    == '*';
-						bool slash  = c.scanner[1] == '/';
+						bool slash  = c.left && c.scanner[1] == '/';
 						bool at_end = star && slash;
 						while ( c.left && ! at_end  )
 						{
@@ -1158,12 +1158,15 @@ TokArray lex( Str content )
 							c.token.Text.Len++;
 
 							star   = (* ctx->scanner)    == '*';
-							slash  = c.scanner[1] == '/';
+							slash  = c.left && c.scanner[1] == '/';
 							at_end = star && slash;
 						}
-						c.token.Text.Len += 2;
-						move_forward();
-						move_forward();
+						if ( at_end )
+						{
+							c.token.Text.Len += 2;
+							move_forward();
+							move_forward();
+						}
 
 						if ( (* ctx->scanner) == '\r' )
 						{
-- 
2.43.0


From fd34ce0d74d07964969a12e14b50a8f50d86f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:37 +0000
Subject: [PATCH 50/58] fix: stop at the end of unterminated block comments
 when stripping formatting

---
 base/components/parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 4c66730..c6da263 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -331,8 +331,13 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 			while ( tokleft > 1 && !(scanner[0] == '*' && scanner[1] == '/') )
 				move_fwd();
 
-			scanner += 2;
-			tokleft -= 2;
+			if ( tokleft > 1 )
+			{
+				scanner += 2;
+				tokleft -= 2;
+			}
+			else
+				move_fwd();
 
 			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
 			last_cut = rcast( sptr, scanner ) - rcast( sptr, raw_text.Ptr );
-- 
2.43.0


From 5ffabf927360d8b296aaa27655b07def79cda7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:42 +0000
Subject: [PATCH 51/58] fix: parser: record -- as Op_Decrement and ->* as
 Op_PtrToMemOfPtr

---
 base/components/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c6da263..2ec6ebe 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2235,7 +2235,7 @@ CodeOperator parse_operator_after_ret_type(
 			if ( currtok.Text.Ptr[1] == '>' )
 			{
 				if ( currtok.Text.Ptr[2] == '*' )
-					op = Op_MemberOfPointer;
+					op = Op_PtrToMemOfPtr;
 
 				else
 					op = Op_MemberOfPointer;
@@ -2246,6 +2246,9 @@ CodeOperator parse_operator_after_ret_type(
 			else if ( currtok.Text.Ptr[1] == '=' )
 				op = Op_Assign_Subtract;
 
+			else if ( currtok.Text.Ptr[1] == '-' )
+				op = Op_Decrement;
+
 			else
 				op = Op_Subtract;
 		}
-- 
2.43.0


From f4162feb31e1e96e2db75fd181d74a2a25d88f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:05 +0000
Subject: [PATCH 52/58] fix: def_operator: accept parameters of ->* and the
 empty list of ()

---
 base/components/interface.upfront.cpp | 38 ++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 255630a..800fd86 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -340,23 +340,43 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			}
 			break;
 
-		case Op_PtrToMemOfPtr:
-			if ( params_code )
-			{
-				log_failure("gen::def_operator: operator %S expects no paramters - %S", operator_to_str(op), code_debug_str((Code)params_code));
-				return OpValResult_Fail;
-			}
+		case Op_Subscript:
+			check_params();
+			// This may only be defined as a member.
+			is_member_symbol = true;
 			break;
 
-		case Op_Subscript:
 		case Op_FunctionCall:
-			check_params();
-			// These may only be defined as members.
+			// May be defined without parameters.
+			if ( params_code && params_code->Type != CT_Parameters )
+			{
+				log_failure("gen::def_operator: params is not of Parameters type - %S", code_debug_str( cast(Code, params_code)));
+				return OpValResult_Fail;
+			}
+			// This may only be defined as a member.
 			is_member_symbol = true;
 			break;
 
 		case Op_Comma:
+		case Op_PtrToMemOfPtr:
 			check_params();
+
+			switch ( params_code->NumEntries )
+			{
+				case 1:
+					is_member_symbol = true;
+					break;
+
+				case 2:
+					break;
+
+				default:
+					log_failure("gen::def_operator: operator %S recieved unexpected number of paramters recived %d instead of 1-2"
+						, operator_to_str(op)
+						, params_code->NumEntries
+					);
+					return OpValResult_Fail;
+			}
 			break;
 
 		case Op_New:
-- 
2.43.0


From 4ba1c8766808b13eb4f99e17784c23cae4dcd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:28 +0000
Subject: [PATCH 53/58] fix: parser: record parameterless + - * & as the unary
 operators

---
 base/components/parser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2ec6ebe..443ce67 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2486,8 +2486,18 @@ CodeOperator parse_operator_after_ret_type(
 	CodeParams params = parse_params(parser_use_parenthesis);
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
-	if ( params == nullptr && op == Op_Multiply )
-		op = Op_MemberOfPointer;
+	// Without parameters these are the unary forms
+	if ( params == nullptr )
+	{
+		if ( op == Op_Multiply )
+			op = Op_Indirection;
+		else if ( op == Op_Add )
+			op = Op_Unary_Plus;
+		else if ( op == Op_Subtract )
+			op = Op_Unary_Minus;
+		else if ( op == Op_BAnd )
+			op = Op_AddressOf;
+	}
 
 	while ( left && tok_is_specifier(currtok) )
 	{
-- 
2.43.0


From 791938cfc0b4482f2f37d2a360ec268d0859181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:02 +0000
Subject: [PATCH 54/58] fix: parser: consume every token of an operator
 spelling, parse operator,

---
 base/components/parser.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 443ce67..315cb66 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2407,6 +2407,11 @@ CodeOperator parse_operator_after_ret_type(
 				op = Op_Invalid;
 		}
 		break;
+		case ',':
+		{
+			op = Op_Comma;
+		}
+		break;
 		default:
 		{
 			Str c_str_new    = operator_to_str(Op_New);
@@ -2479,7 +2484,15 @@ CodeOperator parse_operator_after_ret_type(
 	}
 
 	if ( ! was_new_or_delete)
-		eat( currtok.Type );
+	{
+		// The lexer may split the operator into several tokens ( "()", "&=", "<<=", ">>=" )
+		ssize left_of_op = operator_to_str(op).Len;
+		while ( left && left_of_op > 0 )
+		{
+			left_of_op -= currtok.Text.Len;
+			eat( currtok.Type );
+		}
+	}
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op>
 
 	// Parse Params
-- 
2.43.0


From 5d136bf82151ce92c9a677b33698f4096a2bd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:16 +0000
Subject: [PATCH 55/58] fix: do not take a string cache or macro entry of
 another text with the same hash

---
 base/components/interface.cpp | 36 +++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b3eaf45..f86590f 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -440,10 +440,16 @@ StrCached cache_str( Str str )
 		Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 		return result;
 	}
-	u64 key = crc32( str.Ptr, str.Len ); {
-		StrCached* result = hashtable_get( _ctx->StrCache, key );
-		if ( result )
-			return * result;
+	u64 key = crc32( str.Ptr, str.Len );
+	// Different strings may have the same hash, they take the keys that follow.
+	StrCached* found = hashtable_get( _ctx->StrCache, key );
+	while ( found )
+	{
+		if ( str_are_equal( * found, str ) )
+			return * found;
+
+		++ key;
+		found = hashtable_get( _ctx->StrCache, key );
 	}
 	Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 	hashtable_set( _ctx->StrCache, key, result );
@@ -471,15 +477,29 @@ Code make_code()
 	return result;
 }
 
+// Key of the macro with the given name, or of the free entry it would be registered to (different names may have the same hash).
+internal
+u64 macro_key( Str name )
+{
+	u64    key   = crc32( name.Ptr, name.Len );
+	Macro* found = hashtable_get( _ctx->Macros, key );
+	while ( found && ! str_are_equal( found->Name, name ) )
+	{
+		++ key;
+		found = hashtable_get( _ctx->Macros, key );
+	}
+	return key;
+}
+
 Macro* lookup_macro( Str name ) {
-	u32 key = crc32( name.Ptr, name.Len );
+	u64 key = macro_key( name );
 	return hashtable_get( _ctx->Macros, key );
 }
 
 void register_macro( Macro macro ) {
 	GEN_ASSERT_NOT_NULL(macro.Name.Ptr);
 	GEN_ASSERT(macro.Name.Len > 0);
-	u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+	u64 key = macro_key( macro.Name );
 	macro.Name = cache_str(macro.Name);
 	hashtable_set( _ctx->Macros, key, macro );
 }
@@ -496,7 +516,7 @@ void register_macros( s32 num, ... )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 	}
 	while (num--, num > 0);
@@ -513,7 +533,7 @@ void register_macros_arr( s32 num,  Macro* macros )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 		++ macros;
 	}
-- 
2.43.0


From 6481b122b0c09ca8361a3026277ffa675735f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:43 +0000
Subject: [PATCH 56/58] fix: do not substitute the value of another token with
 the same hash

---
 base/components/interface.untyped.cpp | 30 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 352530d..6d503ba 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -3,6 +3,21 @@
 #include "interface.parsing.cpp"
 #endif
 
+// Key the token is stored under in the token_fmt_map, or of the free entry it would be stored to (different tokens may have the same hash).
+// The value of the token is stored under the key that follows it.
+internal
+u64 token_fmt_key( Str token )
+{
+	u64  key   = scast(u64, crc32( token.Ptr, token.Len )) * 2;
+	Str* found = hashtable_get( _ctx->token_fmt_map, key );
+	while ( found && ! str_are_equal( * found, token ) )
+	{
+		key += 2;
+		found = hashtable_get( _ctx->token_fmt_map, key );
+	}
+	return key;
+}
+
 ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 {
 	char const* buf_begin = buf;
@@ -20,8 +35,10 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			char const* token = va_arg( va, char const* );
 			Str         value = va_arg( va, Str );
 
-			u32 key = crc32( token, c_str_len(token) );
-			hashtable_set( _ctx->token_fmt_map, key, value );
+			Str token_str = { token, c_str_len(token) };
+			u64 key       = token_fmt_key( token_str );
+			hashtable_set( _ctx->token_fmt_map, key, token_str );
+			hashtable_set( _ctx->token_fmt_map, key + 1, value );
 		}
 	}
 
@@ -54,10 +71,11 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 				scanner++;
 			}
 
-			char const* token = fmt + 1;
-
-			u32      key   = crc32( token, tok_len );
-			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
+			Str  token = { fmt + 1, tok_len };
+			u64  key   = token_fmt_key( token );
+			Str* value = nullptr;
+			if ( hashtable_get(_ctx->token_fmt_map, key ) )
+				value = hashtable_get(_ctx->token_fmt_map, key + 1 );
 
 			if ( value )
 			{
-- 
2.43.0


From 39226e172d6244eb911ac0b0493f75715af45b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 57/58] fix: cache the names of define parameters

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 315cb66..8b72d1d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3687,7 +3687,7 @@ CodeDefine parser_parse_define()
 		params->Type = CT_Parameters_Define;
 
 		if ( left && currtok.Type != Tok_Paren_Close ) {
-			params->Name = currtok.Text;
+			params->Name = cache_str(currtok.Text);
 			params->NumEntries ++;
 
 			eat( Tok_Preprocess_Define_Param );
@@ -3703,7 +3703,7 @@ CodeDefine parser_parse_define()
 
 			CodeDefineParams next_param = (CodeDefineParams) make_code();
 			next_param->Type = CT_Parameters_Define;
-			next_param->Name = currtok.Text;
+			next_param->Name = cache_str(currtok.Text);
 			define_params_append(params, next_param);
 
 			// #define  <Name> (  <param>, <next_param> ...
-- 
2.43.0


From 6a0fd48aa7664de95d5219d9d8451e79d9c66735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:30 +0000
Subject: [PATCH 58/58] fix: do not dereference absent entries when a node is
 described

---
 base/components/ast.cpp | 50 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index bfe8918..38067c0 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -29,7 +29,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Untyped:
@@ -46,7 +46,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tContent: %S", self->Content );
 		break;
@@ -61,7 +61,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -75,7 +75,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -87,7 +87,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -100,7 +100,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -112,7 +112,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
@@ -127,7 +127,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -140,7 +140,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -152,7 +152,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tBody: %S", self->Body ? code_debug_str(self->Body) : txt("Null") );
 		break;
@@ -161,7 +161,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt  : %S", self->InlineCmt   ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -171,7 +171,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -185,7 +185,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -198,7 +198,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Operator:
@@ -206,7 +206,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -222,7 +222,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -236,7 +236,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -248,7 +248,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -257,8 +257,8 @@ Str code_debug_str(Code self)
 
 		case CT_Parameters:
 			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
-			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last->Name );
-			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next->Name );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValue     : %S", self->Value     ? strbuilder_to_str( code_to_strbuilder(self->Value))     : txt("Null") );
 		break;
@@ -289,7 +289,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tParams     : %S", self->Params      ? strbuilder_to_str( code_to_strbuilder(self->Params))      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -299,7 +299,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tUnderlyingType: %S", self->UnderlyingType ? strbuilder_to_str( code_to_strbuilder(self->UnderlyingType)) : txt("Null") );
@@ -317,7 +317,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                                : txt("Null") );
@@ -327,7 +327,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes    : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )     : txt("Null") );
@@ -349,7 +349,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt    ? self->InlineCmt->Content                                    : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes   ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )   : txt("Null") );
-- 
2.43.0

