package main

import "go/ast"

type ast_Expr = ast.Expr
type astIdent = ast.Ident
type astStar = ast.StarExpr
type astCall = ast.CallExpr
type astSelector = ast.SelectorExpr
