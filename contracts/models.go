package joeson

// Models, in Go, of library functions that call back into the package. gv loads this file
// as one more file of the package (it is never part of the program) and runs a model in the
// place of the function the directive "stub" of a contract file names. Functions whose names
// begin with verifAny are arbitrary values; their contracts are in 55_gocode.gvc.

import (
	goscanner "go/scanner"
	gotoken "go/token"
)

// The handler the scanner was given, and the file. One scanner at a time.
var verifHandler goscanner.ErrorHandler
var verifFile *gotoken.File

func verifAny() bool                                                                 { panic("") }
func verifAnyPosition() gotoken.Position                                             { panic("") }
func verifAnyText() string                                                           { panic("") }
func verifAnyToken(f *gotoken.File) (pos gotoken.Pos, tok gotoken.Token, lit string) { panic("") }
func verifReported()                                                                 { panic("") }
func verifScanned(f *gotoken.File, src []byte)                                       { panic("") }

// An error is given to the handler, if there is one, and counted.
func verifReport(s *goscanner.Scanner) {
	if verifHandler != nil {
		verifHandler(verifAnyPosition(), verifAnyText())
	}
	s.ErrorCount++
	verifReported()
}

// (*scanner.Scanner).Init: reads the first character, which may be an error.
func verifScannerInit(s *goscanner.Scanner, file *gotoken.File, src []byte, err goscanner.ErrorHandler, mode goscanner.Mode) {
	verifScanned(file, src)
	verifHandler = err
	verifFile = file
	s.ErrorCount = 0
	for verifAny() {
		verifReport(s)
	}
}

// (*scanner.Scanner).Scan: any number of errors, then a token.
func verifScannerScan(s *goscanner.Scanner) (pos gotoken.Pos, tok gotoken.Token, lit string) {
	for verifAny() {
		verifReport(s)
	}
	return verifAnyToken(verifFile)
}
