//go:build go1.22

// Package packages stands in for golang.org/x/tools/go/packages, which runs
// the go command: the harness says what is loaded.
package packages

import (
	"context"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
)

type LoadMode int

const (
	NeedName LoadMode = 1 << iota
	NeedFiles
	NeedCompiledGoFiles
	NeedImports
	NeedDeps
	NeedExportFile
	NeedTypes
	NeedSyntax
	NeedTypesInfo
	NeedTypesSizes
	needInternalDepsErrors
	needInternalForTest
	typecheckCgo
	NeedModule
	NeedEmbedFiles
	NeedEmbedPatterns
)

const (
	LoadFiles       = NeedName | NeedFiles | NeedCompiledGoFiles
	LoadImports     = LoadFiles | NeedImports
	LoadTypes       = LoadImports | NeedTypes | NeedTypesSizes
	LoadSyntax      = LoadTypes | NeedSyntax | NeedTypesInfo
	LoadAllSyntax   = LoadSyntax | NeedDeps
	NeedExportsFile = NeedExportFile
)

type Config struct {
	Mode       LoadMode
	Context    context.Context
	Logf       func(format string, args ...interface{})
	Dir        string
	Env        []string
	BuildFlags []string
	Fset       *token.FileSet
	ParseFile  func(fset *token.FileSet, filename string, src []byte) (*ast.File, error)
	Tests      bool
	Overlay    map[string][]byte
}

type Package struct {
	ID              string
	Name            string
	PkgPath         string
	Errors          []Error
	TypeErrors      []types.Error
	GoFiles         []string
	CompiledGoFiles []string
	OtherFiles      []string
	EmbedFiles      []string
	EmbedPatterns   []string
	IgnoredFiles    []string
	ExportFile      string
	Imports         map[string]*Package
	Types           *types.Package
	Fset            *token.FileSet
	IllTyped        bool
	Syntax          []*ast.File
	TypesInfo       *types.Info
	TypesSizes      types.Sizes
}

func (p *Package) String() string { return p.ID }

type Error struct {
	Pos  string
	Msg  string
	Kind ErrorKind
}

type ErrorKind int

const (
	UnknownError ErrorKind = iota
	ListError
	ParseError
	TypeError
)

func (err Error) Error() string {
	pos := err.Pos
	if pos == "" {
		pos = "-"
	}
	return pos + ": " + err.Msg
}

// Loader is what Load does.
var Loader func(cfg *Config, patterns []string) ([]*Package, error)

func Load(cfg *Config, patterns ...string) ([]*Package, error) {
	if cfg == nil {
		cfg = &Config{Mode: NeedName | NeedFiles | NeedCompiledGoFiles}
	}
	return Loader(cfg, patterns)
}

func Visit(pkgs []*Package, pre func(*Package) bool, post func(*Package)) {
	seen := make(map[*Package]bool)
	var visit func(*Package)
	visit = func(pkg *Package) {
		if !seen[pkg] {
			seen[pkg] = true
			if pre == nil || pre(pkg) {
				paths := make([]string, 0, len(pkg.Imports))
				for path := range pkg.Imports {
					paths = append(paths, path)
				}
				sort.Strings(paths)
				for _, path := range paths {
					visit(pkg.Imports[path])
				}
			}
			if post != nil {
				post(pkg)
			}
		}
	}
	for _, pkg := range pkgs {
		visit(pkg)
	}
}

func PrintErrors(pkgs []*Package) int {
	var n int
	Visit(pkgs, nil, func(pkg *Package) {
		for _, err := range pkg.Errors {
			fmt.Fprintln(os.Stderr, err)
			n++
		}
	})
	return n
}
