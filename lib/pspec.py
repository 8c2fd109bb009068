"""Kinds of node each parsing routine may return (the oracle of P18, and what callers of the routine may assume)."""
CLS = ["CT_Class", "CT_Class_Fwd"]; STR = ["CT_Struct", "CT_Struct_Fwd"]; ENM = ["CT_Enum", "CT_Enum_Fwd", "CT_Enum_Class", "CT_Enum_Class_Fwd"]; UNI = ["CT_Union", "CT_Union_Fwd"]
FN = ["CT_Function", "CT_Function_Fwd"]; OP = ["CT_Operator", "CT_Operator_Fwd", "CT_Operator_Member", "CT_Operator_Member_Fwd"]; OPC = ["CT_Operator_Cast", "CT_Operator_Cast_Fwd"]
CON = ["CT_Constructor", "CT_Constructor_Fwd"]; DES = ["CT_Destructor", "CT_Destructor_Fwd"]; VAR = ["CT_Variable"]; UNT = ["CT_Untyped"]
DEFS = CLS + STR + ENM + UNI
FOV = FN + OP + VAR + UNT + CON + OPC
T = {
 "parse_array_decl": ("array expression", UNT), "parse_attributes": ("attributes", ["CT_PlatformAttributes"]), "parse_class_struct": ("class or struct", CLS + STR),
 "parse_class_struct_body": ("class body", ["CT_Class_Body", "CT_Struct_Body"]), "parse_comment": ("comment", ["CT_Comment"]),
 "parse_complicated_definition": ("definition", DEFS + FN + OP + VAR + UNT), "parse_assignment_expression": ("value", UNT), "parse_forward_or_definition": ("definition", DEFS),
 "parse_function_after_name": ("function", FN), "parse_function_body": ("function body", ["CT_Function_Body"]),
 "parse_global_nspace": ("body", ["CT_Global_Body", "CT_Namespace_Body", "CT_Export_Body", "CT_Extern_Linkage_Body"]),
 "parse_global_nspace_constructor_destructor": ("constructor or destructor", CON + DES), "parse_include": ("include", ["CT_Preprocess_Include"]),
 "parse_operator_after_ret_type": ("operator", OP), "parse_operator_function_or_variable": ("member", FN + OP + VAR + UNT), "parse_macro_as_definiton": ("macro", UNT),
 "parse_pragma": ("pragma", ["CT_Preprocess_Pragma"]), "parse_params": ("parameters", ["CT_Parameters"]),
 "parse_preprocess_cond": ("condition", ["CT_Preprocess_If", "CT_Preprocess_IfDef", "CT_Preprocess_IfNotDef", "CT_Preprocess_ElIf"]),
 "parse_simple_preprocess": ("macro", UNT), "parse_static_assert": ("static assertion", UNT), "parse_variable_after_name": ("variable", VAR),
 "parse_variable_declaration_list": ("variable list", VAR),
 "parser_parse_class": ("class", CLS), "parser_parse_constructor": ("constructor", CON), "parser_parse_define": ("define", ["CT_Preprocess_Define"]), "parser_parse_destructor": ("destructor", DES),
 "parser_parse_enum": ("enum", ENM), "parser_parse_export_body": ("export body", ["CT_Export_Body"]), "parser_parse_extern_link_body": ("extern body", ["CT_Extern_Linkage_Body"]),
 "parser_parse_extern_link": ("linkage block", ["CT_Extern_Linkage"]), "parser_parse_friend": ("friend", ["CT_Friend"]), "parser_parse_function": ("function", FN),
 "parser_parse_namespace": ("namespace", ["CT_Namespace"]), "parser_parse_operator": ("operator", OP), "parser_parse_operator_cast": ("conversion operator", OPC),
 "parser_parse_struct": ("struct", STR), "parser_parse_template": ("template", ["CT_Template"]), "parser_parse_type": ("type", ["CT_Typename"]), "parser_parse_type_alt": ("type", ["CT_Typename"]),
 "parser_parse_typedef": ("typedef", ["CT_Typedef"]), "parser_parse_union": ("union", UNI), "parser_parse_using": ("using", ["CT_Using", "CT_Using_Namespace"]), "parser_parse_variable": ("variable", VAR),
 "parse_class": ("class", CLS), "parse_constructor": ("constructor", CON), "parse_define": ("define", ["CT_Preprocess_Define"]), "parse_destructor": ("destructor", DES), "parse_enum": ("enum", ENM),
 "parse_export_body": ("export body", ["CT_Export_Body"]), "parse_extern_link": ("linkage block", ["CT_Extern_Linkage"]), "parse_friend": ("friend", ["CT_Friend"]), "parse_function": ("function", FN),
 "parse_global_body": ("global body", ["CT_Global_Body"]), "parse_namespace": ("namespace", ["CT_Namespace"]), "parse_operator": ("operator", OP), "parse_operator_cast": ("conversion operator", OPC),
 "parse_struct": ("struct", STR), "parse_template": ("template", ["CT_Template"]), "parse_type": ("type", ["CT_Typename"]), "parse_typedef": ("typedef", ["CT_Typedef"]), "parse_union": ("union", UNI),
 "parse_using": ("using", ["CT_Using", "CT_Using_Namespace"]), "parse_variable": ("variable", VAR),
}
NULLABLE = {"parse_attributes", "parse_params", "parse_array_decl", "parse_macro_as_definiton", "parse_global_nspace_constructor_destructor", "parse_variable_declaration_list"}
SPEC = {k: {"ret": "code", "what": w, "tags": t, "null": k in NULLABLE, "invalid": False} for k, (w, t) in T.items()}
SPEC["parse_identifier"] = {"ret": "token"}
SPEC["parse_template_args"] = {"ret": "void"}

# routines whose result depends on their first argument: value -> kinds
_B = {t: [t] for t in ["CT_Global_Body", "CT_Namespace_Body", "CT_Export_Body", "CT_Extern_Linkage_Body"]}
_REST = FN + OP + VAR + UNT
BYARG = {
 "parse_class_struct": {"Tok_Decl_Class": CLS, "Tok_Decl_Struct": STR},
 "parse_global_nspace": _B,
 "parse_forward_or_definition": {"Tok_Decl_Class": CLS, "Tok_Decl_Struct": STR, "Tok_Decl_Enum": ENM, "Tok_Decl_Union": UNI},
 "parse_complicated_definition": {"Tok_Decl_Class": CLS + _REST, "Tok_Decl_Struct": STR + _REST, "Tok_Decl_Enum": ENM + _REST, "Tok_Decl_Union": UNI + _REST},
 "parse_class_struct_body": {"Tok_Decl_Class": ["CT_Class_Body"], "Tok_Decl_Struct": ["CT_Struct_Body"]},
}
# kinds of the token a routine is entered on, where it relies on its callers for that
FIRST = {"parse_preprocess_cond": ["Tok_Preprocess_If", "Tok_Preprocess_IfDef", "Tok_Preprocess_IfNotDef", "Tok_Preprocess_ElIf"]}
# kind of the result by the kind of the first token
BYFIRST = {"parse_preprocess_cond": {"Tok_Preprocess_If": ["CT_Preprocess_If"], "Tok_Preprocess_IfDef": ["CT_Preprocess_IfDef"], "Tok_Preprocess_IfNotDef": ["CT_Preprocess_IfNotDef"], "Tok_Preprocess_ElIf": ["CT_Preprocess_ElIf"]}}
# token kinds whose consumption decides between the kinds of the result: (kinds if consumed, kinds if not)
WATCH = {"parser_parse_enum": ("Tok_Decl_Class", ["CT_Enum_Class", "CT_Enum_Class_Fwd"], ["CT_Enum", "CT_Enum_Fwd"]),
         "parser_parse_using": ("Tok_Decl_Namespace", ["CT_Using_Namespace"], ["CT_Using"])}
HEAVY = ["parse_params", "parse_operator_after_ret_type", "parse_class_struct_body", "parse_global_nspace", "parser_parse_union", "parser_parse_enum", "parser_parse_typedef"]
ORDER = HEAVY + [n for n in SPEC if n not in HEAVY]
def interp(F, name, arg=None, first=None, **kw):
    """analysed interpreter for the routine, its returns in .rets"""
    import sys, parsei
    sys.setrecursionlimit(100000)
    ip = parsei.ParserInterp(F, SPEC, name, **kw); ip.budget = 80_000_000
    ip.byarg = {k: {(ip.ct if x in ip.ct else ip.tk)[x]: t for x, t in v.items()} for k, v in BYARG.items()}
    ip.first = {k: [ip.tk[x] for x in v] for k, v in FIRST.items()}
    if name in WATCH: ip.watch = ip.tk[WATCH[name][0]]
    if first: ip.first[name] = [ip.tk[first]]
    if arg: ip.arg0 = (ip.ct if arg in ip.ct else ip.tk)[arg]
    for f in F.byname.get(name, []): ip.analyse(f)
    return ip
