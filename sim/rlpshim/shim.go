//go:build go1.22

// Package zzrlpgen is the code of rlp/rlpgen, built as a library (see
// tool/overlay.py); this file makes what the harness uses visible outside.
package zzrlpgen

import (
	"flag"
	"go/types"
	"os"

	"flychain/rlp/internal/rlpstruct"
)

type (
	Field    = rlpstruct.Field
	Type     = rlpstruct.Type
	Tags     = rlpstruct.Tags
	NilKind  = rlpstruct.NilKind
	TagError = rlpstruct.TagError
)

func ProcessFields(l []Field) ([]Field, []Tags, error) { return rlpstruct.ProcessFields(l) }

const (
	NilKindString = rlpstruct.NilKindString
	NilKindList   = rlpstruct.NilKindList
)

// Generator is one generator, used for any number of types.
type Generator struct{ b *buildContext }

func NewGenerator(rlp *types.Package) *Generator { return &Generator{newBuildContext(rlp)} }

// Generate does what Config.process does once the packages are loaded.
func (g *Generator) Generate(scope *types.Scope, name string, enc, dec bool) ([]byte, error) {
	typ, err := lookupStructType(scope, name)
	if err != nil {
		return nil, err
	}
	return g.b.generate(typ, enc, dec)
}

const PathOfRLP = pathOfPackageRLP

// The flags declared when the program starts, if any.
var early = flag.NewFlagSet("", flag.ContinueOnError)

func init() { flag.VisitAll(func(f *flag.Flag) { early.Var(f.Value, f.Name, f.Usage) }) }

// RunMain runs the command as a new process would.
func RunMain(args ...string) {
	os.Args = append([]string{"rlpgen"}, args...)
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	early.VisitAll(func(f *flag.Flag) {
		f.Value.Set(f.DefValue)
		flag.CommandLine.Var(f.Value, f.Name, f.Usage)
	})
	main()
}
