package main

import (
	"fmt"
	"os"

	"verifengine/check"
)

func main() {
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Println("usage: verif check <ID> [quick|thorough]")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	repo, verif := os.Getenv("VERIF_REPO"), os.Getenv("VERIF_DIR")
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	os.Exit(check.Main(os.Args[2], tier, repo, verif))
}
