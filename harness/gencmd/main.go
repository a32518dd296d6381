// gencmd runs the generator for a list of jobs read from a JSON file.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"log/slog"
	"os"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
)

type job struct {
	Driver  string
	Quote   bool
	Naming  string
	Source  []string
	DB      string
	DBPkg   string
	Op      string // operator dir, "" for the db dir
	OpPkg   string
	Types   map[string]*codegen.DataType
	Exec    string
	Lenient bool
	Expect  string // "", "error"
	Dir     string // working directory
	Tag     string
	Prefix  string
}

func one(j job) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if j.Dir != "" {
		old, _ := os.Getwd()
		if err := os.Chdir(j.Dir); err != nil {
			return err
		}
		defer os.Chdir(old)
	}
	strict := !j.Lenient
	c := &codegen.Config{Source: j.Source, Driver: codegen.SqlDriver(j.Driver), QuoteIdentifier: j.Quote, SkipModTidy: true, DataTypes: j.Types, Strict: &strict}
	switch j.Naming {
	case "camel":
		c.NamingConvention = codegen.CamelCase
	case "pascal":
		c.NamingConvention = codegen.PascalCase
	}
	c.Tag, c.Getter.Prefix = j.Tag, j.Prefix
	if j.Exec != "" {
		c.Exec.Filename = j.Exec
	}
	if j.DB != "" {
		op, opp := j.Op, j.OpPkg
		if op == "" {
			op, opp = j.DB, j.DBPkg
		}
		c.Database = &codegen.DatabaseConfig{Dir: j.DB, Package: j.DBPkg, Filename: "db.go", Operator: &codegen.DatabaseOperatorConfig{Dir: op, Package: opp, Filename: "operator.go"}}
	}
	return codegen.Generate(c)
}

func main() {
	log.SetOutput(io.Discard)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		panic(err)
	}
	// the generator prints on stdout
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for i, j := range jobs {
		msg := "ok"
		if err := one(j); err != nil {
			msg = "error: " + err.Error()
		}
		fmt.Fprintf(out, "%d %q\n", i, msg)
	}
}
