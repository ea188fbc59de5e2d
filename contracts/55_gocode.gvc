# ---- Tokenizing Go source. The scanner of go/scanner is a model: Init and Scan report any
# number of errors to the handler (contracts/models.go), then Scan returns a token whose
# offset in the source lies after the one before.
stub (*go/scanner.Scanner).Init = verifScannerInit
stub (*go/scanner.Scanner).Scan = verifScannerScan

package go/token
# the next base of each file set; the base and the size of a file
ghost fsnext map[int]int
uf filebase(f: *File): int
uf filesize(f: *File): int
func NewFileSet() r
  trusted
  modifies nothing
  nopanic
  ghostwrites
  ensures fresh(r) && r != nil
  set fsnext[ref(r)] = 1

func (*FileSet).Base(fs) r
  trusted
  modifies nothing
  nopanic
  ensures r == fsnext[ref(fs)]

func (*FileSet).AddFile(fs, name, base, size) r
  trusted
  modifies nothing
  panics_when base >= 0 && base < fsnext[ref(fs)] || size < 0
  ghostwrites
  ensures fresh(r) && r != nil && filesize(r) == size
  assume base: filebase(r) == (base < 0 ? old(fsnext[ref(fs)]) : base)
  set fsnext[ref(fs)] = filebase(r) + size + 1

func (Token).String(t) r
  trusted
  uf tokname

package errors
func Join(errs) r
  trusted
  modifies nothing
  nopanic
  ensures isnil(r) <==> (forall i :: 0 <= i < len(errs) ==> isnil(errs[i]))

package github.com/grepsuzette/joeson
ghost nerr int
ghost scn int
ghost scoff map[int]int
ghost sclit map[int]string
ghost scname map[int]string
ghost scsize int
ghost scbase int

props C25
func verifAny() r
  trusted
  modifies nothing
  nopanic

func verifAnyPosition() r
  trusted
  modifies nothing
  nopanic

func verifAnyText() r
  trusted
  modifies nothing
  nopanic

func verifReported()
  trusted
  modifies nothing
  nopanic
  ghostwrites
  set nerr = nerr + 1

func verifScanned(f, src)
  trusted
  requires f != nil
  modifies nothing
  panics_when filesize(f) != len(src)
  ghostwrites
  set scsize = len(src)
  set scbase = filebase(f)

# the offset of a token lies in the source, after the token before
func verifAnyToken(f) pos, tok, lit
  trusted
  requires f != nil
  modifies nothing
  nopanic
  ghostwrites
  assume inside: 0 <= pos - filebase(f) <= scsize
  assume order: tok != 1 && scn > 0 ==> pos - filebase(f) > scoff[scn - 1]
  set scoff[scn] = pos - filebase(f)
  set sclit[scn] = lit
  set scname[scn] = tokname(tok)
  set scn = tok == 1 ? scn : scn + 1

# the text of a token in the work text: the token, or a blank and the token; ";\n" for an automatic semicolon
fn spelled(r: string, lit: string, name: string): bool =
    (name == ";" && lit == "\n" && r == ";\n")
    || (lit != "" && (r == lit || r == " " + lit))
    || (lit == "" && (r == name || r == " " + name))

func TokenStreamFromGoCode(source) r, err
  merge
  let n0 = scn
  let e0 = nerr
  requires scn == 0 && nerr == 0
  modifies nothing
  ghostwrites
  nopanic
  hint nerr == len(?e:[]error)
  hint forall i :: 0 <= i < len(?e:[]error) ==> !isnil(?e[i])
  hint scn == len(?t:[]Token)
  hint forall i :: 0 <= i < len(?t:[]Token) ==> ?t[i].OriginalOffset == scoff[i] && 0 <= scoff[i] <= len(source)
  hint forall i :: 0 <= i < len(?t:[]Token) ==> spelled(?t[i].Repr, sclit[i], scname[i])
  hint forall i, j :: 0 <= i < j < scn ==> scoff[i] < scoff[j]
  hint forall i :: 1 <= i < len(?t:[]Token) ==> ?t[i].WorkOffset == ?t[i - 1].WorkOffset + len(?t[i - 1].Repr)
  hint len(?t:[]Token) > 0 ==> ?t[0].WorkOffset == 0
  hint len(?t:[]Token) > 0 ==> ?t[len(?t) - 1].WorkOffset == ?w
  hint len(?t:[]Token) > 0 ==> ?t[len(?t) - 1].Repr == ?s:string
  hint len(?t:[]Token) == 0 ==> ?w + len(?s:string) == 0
  hint cap(?t:[]Token) == 0 || fresh(?t)
  hint cap(?e:[]error) == 0 || fresh(?e)
  hint nerr == (?s:scanner.Scanner).ErrorCount
  ensures error: isnil(err) <==> nerr == 0
  ensures nothing: isnil(r) <==> !isnil(err)
  ensures source: isnil(err) ==> r.original == source
  ensures tokens: isnil(err) ==> len(r.tokens) == scn
  ensures offsets: isnil(err) ==> (forall i :: 0 <= i < scn ==> r.tokens[i].OriginalOffset == scoff[i])
  ensures order: isnil(err) ==> (forall i, j :: 0 <= i < j < scn ==> r.tokens[i].OriginalOffset < r.tokens[j].OriginalOffset)
  ensures spelled: isnil(err) ==> (forall i :: 0 <= i < scn ==> spelled(r.tokens[i].Repr, sclit[i], scname[i]))
  ensures contiguous: isnil(err) && scn > 0 ==> r.tokens[0].WorkOffset == 0 && (forall i :: 1 <= i < scn ==> r.tokens[i].WorkOffset == r.tokens[i - 1].WorkOffset + len(r.tokens[i - 1].Repr))
