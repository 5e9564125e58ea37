// Command clients records calls of the public clients for the checker.
package main

import (
	"os"

	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

func main() {
	defer rec.Flush()
	go rec.Watch()
	map[string]func(){
		"C02": c02, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25,
	}[os.Args[1]]()
}
