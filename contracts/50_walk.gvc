package github.com/grepsuzette/joeson

# ---- walking and mapping the tree of parsers
aspect
group RULEPTR = choice.rule, sequence.rule, pattern.rule, existential.rule, lookahead.rule, not.rule, regex.rule, ref.rule, rank.choice
props C28
# the calls of the function that maps the children
ghost fcn int
ghost fcf map[int]func
ghost fcin map[int]Parser
ghost fcout map[int]Parser
# how many results were kept so far, in all and before each call
ghost fckn int
ghost fcidx map[int]int
# the calls of ForEachChildInRules and ForEachChild_Array, each with the number of
# other calls made before it
ghost frn int
ghost frx map[int]Parser
ghost frf map[int]func
ghost frout map[int]map[string]Parser
ghost frat map[int]int
ghost fan int
ghost fain map[int][]Parser
ghost faf map[int]func
ghost faout map[int][]Parser
ghost faat map[int]int
ghost farules map[int]int

# the node whose children are being mapped: its own table of rules and its own
# operands are left alone by the function that maps them
ghost gwr *rule
ghost gwx *existential
ghost gwl *lookahead
ghost gwn *not
ghost gwp *pattern
ghost gws *sequence
ghost gwc *choice
functype func(Parser) Parser :: (f, p) r
  modifies all
  preserves elems Parser, elems string, $RULEPTR
  assume table: gwr.rules == old(gwr.rules) && gwr.rulesK == old(gwr.rulesK) && (forall s: string :: has(gwr.rules, s) == old(has(gwr.rules, s)) && gwr.rules[s] == old(gwr.rules[s]))
  assume operands: gwx.it == old(gwx.it) && gwl.expr == old(gwl.expr) && gwn.it == old(gwn.it) && gwp.value == old(gwp.value) && gwp.join == old(gwp.join) && gws.sequence == old(gws.sequence) && gwc.choices == old(gwc.choices)
  set fcf[fcn] = f
  set fcin[fcn] = p
  set fcout[fcn] = r
  set fcidx[fcn] = fckn
  set fckn = fckn + (isnil(r) ? 0 : 1)
  set fcn = fcn + 1

func ForEachChild_Array(a, f) r
  requires f != nil
  let n0 = fcn
  let k0 = fckn
  modifies all
  preserves elems Parser, elems string, $RULEPTR
  ghostwrites
  hint forall j :: n0 <= j < fcn ==> fcf[j] == f && fcin[j] == a[j - n0]
  hint len(?m:[]Parser) == fckn - k0
  hint allocated(?m:[]Parser) && fresh(?m)
  hint forall j :: n0 <= j < fcn ==> k0 <= fcidx[j] <= fckn && (!isnil(fcout[j]) ==> fcidx[j] < fckn)
  hint forall i, j :: n0 <= i < j < fcn ==> fcidx[i] <= fcidx[j] && (!isnil(fcout[i]) ==> fcidx[i] < fcidx[j])
  hint forall j :: n0 <= j < fcn && !isnil(fcout[j]) ==> (?m:[]Parser)[fcidx[j] - k0] == fcout[j]
  hint gwx.it == old(gwx.it) && gwl.expr == old(gwl.expr) && gwn.it == old(gwn.it) && gwp.value == old(gwp.value) && gwp.join == old(gwp.join) && gws.sequence == old(gws.sequence) && gwc.choices == old(gwc.choices)
  hint gwr.rules == old(gwr.rules) && gwr.rulesK == old(gwr.rulesK)
  hint forall s: string :: has(gwr.rules, s) == old(has(gwr.rules, s)) && gwr.rules[s] == old(gwr.rules[s])
  ensures table: gwr.rules == old(gwr.rules) && gwr.rulesK == old(gwr.rulesK) && (forall s: string :: has(gwr.rules, s) == old(has(gwr.rules, s)) && gwr.rules[s] == old(gwr.rules[s]))
  ensures operands: gwx.it == old(gwx.it) && gwl.expr == old(gwl.expr) && gwn.it == old(gwn.it) && gwp.value == old(gwp.value) && gwp.join == old(gwp.join) && gws.sequence == old(gws.sequence) && gwc.choices == old(gwc.choices)
  ensures each: fcn == n0 + len(a) && (forall j :: n0 <= j < fcn ==> fcf[j] == f && fcin[j] == a[j - n0])
  ensures count: len(r) == fckn - k0
  ensures kept: forall j :: n0 <= j < fcn && !isnil(fcout[j]) ==> 0 <= fcidx[j] - k0 < len(r) && r[fcidx[j] - k0] == fcout[j]
  ensures order: forall i, j :: n0 <= i < j < fcn && !isnil(fcout[i]) ==> fcidx[i] < fcidx[j]
  set fain[fan] = a
  set faf[fan] = f
  set faout[fan] = r
  set faat[fan] = old(fcn)
  set farules[fan] = old(frn)
  set fan = fan + 1

func ForEachChildInRules(x, f) r
  requires !isnil(x) && f != nil && gwr == ruleOf(x)
  let n0 = fcn
  let K = gwr.rulesK
  let none = isnil(gwr.rules)
  modifies all
  preserves elems Parser, elems string, $RULEPTR
  ghostwrites
  hint gwr.rules == old(gwr.rules) && gwr.rulesK == K
  hint forall s: string :: has(gwr.rules, s) == old(has(gwr.rules, s)) && gwr.rules[s] == old(gwr.rules[s])
  hint allocated(?m:map[string]Parser) && fresh(?m)
  hint forall j :: n0 <= j < fcn ==> fcf[j] == f && fcin[j] == gwr.rules[K[j - n0]] && has(gwr.rules, K[j - n0])
  hint forall s: string :: has(?m:map[string]Parser, s) ==> (exists j :: n0 <= j < fcn && K[j - n0] == s && !isnil(fcout[j]) && ?m[s] == fcout[j])
  hint forall j :: n0 <= j < fcn && !isnil(fcout[j]) ==> has(?m:map[string]Parser, K[j - n0])
  hint gwx.it == old(gwx.it) && gwl.expr == old(gwl.expr) && gwn.it == old(gwn.it) && gwp.value == old(gwp.value) && gwp.join == old(gwp.join) && gws.sequence == old(gws.sequence) && gwc.choices == old(gwc.choices)
  ensures operands: gwx.it == old(gwx.it) && gwl.expr == old(gwl.expr) && gwn.it == old(gwn.it) && gwp.value == old(gwp.value) && gwp.join == old(gwp.join) && gws.sequence == old(gws.sequence) && gwc.choices == old(gwc.choices)
  ensures nil: none ==> isnil(r) && fcn == n0
  ensures each: !none ==> !isnil(r) && fcn == n0 + len(K) && (forall j :: n0 <= j < fcn ==> fcf[j] == f && fcin[j] == gwr.rules[K[j - n0]])
  ensures only: !none ==> (forall s: string :: has(r, s) ==> (exists j :: n0 <= j < fcn && K[j - n0] == s && !isnil(fcout[j]) && r[s] == fcout[j]))
  ensures kept: !none ==> (forall j :: n0 <= j < fcn && !isnil(fcout[j]) ==> has(r, K[j - n0]))
  set frx[frn] = x
  set frf[frn] = f
  set frout[frn] = r
  set frat[frn] = old(fcn)
  set frn = frn + 1

# ---- the children of each kind of parser: its rules first, then its operands in order
ghost chn int
ghost chp map[int]Parser
ghost chv map[int]int
iface Parser.forEachChild(p, f) r
  requires !isnil(f)
  modifies all
  ensures r == p
  set chp[chn] = p
  set chv[chn] = old(vn)
  set chn = chn + 1

func (*existential).forEachChild(ex, f) r
  requires f != nil && gwx == ex && gwr == ex.rule && ruleOf(box(ex)) == ex.rule && ex.rule != nil
  let n0 = fcn
  let r0 = frn
  let a0 = fan
  let v0 = ex.it
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(ex) && frf[r0] == f && frat[r0] == n0 && ex.rule.rules == frout[r0]
  ensures same: r == box(ex)
  ensures it: v0 != nil ==> fcin[n0] == v0 && fcf[n0] == f && ex.it == fcout[n0]
  ensures noit: v0 == nil ==> ex.it == nil
  ensures each: fcn == n0 + (v0 == nil ? 0 : 1)

func (*lookahead).forEachChild(look, f) r
  requires f != nil && gwl == look && gwr == look.rule && ruleOf(box(look)) == look.rule && look.rule != nil
  let n0 = fcn
  let r0 = frn
  let a0 = fan
  let v0 = look.expr
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(look) && frf[r0] == f && frat[r0] == n0 && look.rule.rules == frout[r0]
  ensures same: r == box(look)
  ensures expr: v0 != nil ==> fcin[n0] == v0 && fcf[n0] == f && look.expr == fcout[n0]
  ensures noexpr: v0 == nil ==> look.expr == nil
  ensures each: fcn == n0 + (v0 == nil ? 0 : 1)

func (*not).forEachChild(no, f) r
  requires f != nil && gwn == no && gwr == no.rule && ruleOf(box(no)) == no.rule && no.rule != nil
  let n0 = fcn
  let r0 = frn
  let a0 = fan
  let v0 = no.it
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(no) && frf[r0] == f && frat[r0] == n0 && no.rule.rules == frout[r0]
  ensures same: r == box(no)
  ensures it: v0 != nil ==> fcin[n0] == v0 && fcf[n0] == f && no.it == fcout[n0]
  ensures noit: v0 == nil ==> no.it == nil
  ensures each: fcn == n0 + (v0 == nil ? 0 : 1)

func (*pattern).forEachChild(patt, f) r
  requires f != nil && gwp == patt && gwr == patt.rule && ruleOf(box(patt)) == patt.rule && patt.rule != nil
  let n0 = fcn
  let r0 = frn
  let a0 = fan
  let v0 = patt.value
  let v1 = patt.join
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(patt) && frf[r0] == f && frat[r0] == n0 && patt.rule.rules == frout[r0]
  ensures same: r == box(patt)
  ensures value: v0 != nil ==> fcin[n0] == v0 && fcf[n0] == f && patt.value == fcout[n0]
  ensures novalue: v0 == nil ==> patt.value == nil
  ensures join: v1 != nil ==> fcin[n0 + (v0 == nil ? 0 : 1)] == v1 && fcf[n0 + (v0 == nil ? 0 : 1)] == f && patt.join == fcout[n0 + (v0 == nil ? 0 : 1)]
  ensures nojoin: v1 == nil ==> patt.join == nil
  ensures each: fcn == n0 + (v0 == nil ? 0 : 1) + (v1 == nil ? 0 : 1)

func (*ref).forEachChild(x, f) r
  requires f != nil && gwr == x.rule && ruleOf(box(x)) == x.rule && x.rule != nil
  let n0 = fcn
  let r0 = frn
  let a0 = fan
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(x) && frf[r0] == f && frat[r0] == n0 && x.rule.rules == frout[r0]
  ensures same: r == box(x)
  ensures each: fcn == n0

func (*regex).forEachChild(re, f) r
  requires f != nil && gwr == re.rule && ruleOf(box(re)) == re.rule && re.rule != nil
  let n0 = fcn
  let r0 = frn
  let a0 = fan
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(re) && frf[r0] == f && frat[r0] == n0 && re.rule.rules == frout[r0]
  ensures same: r == box(re)
  ensures each: fcn == n0

ghost cwn int
ghost cwx map[int]*choice
ghost cwf map[int]func
func (*choice).forEachChild(ch, f) r
  requires f != nil && gwc == ch && gwr == ch.rule && ruleOf(box(ch)) == ch.rule && ch.rule != nil
  let n0 = fcn
  let r0 = frn
  let a0 = fan
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(ch) && frf[r0] == f && frat[r0] == n0 && ch.rule.rules == frout[r0]
  ensures same: r == box(ch)
  ensures array: fan == a0 + 1 && fain[a0] == old(ch.choices) && faf[a0] == f && ch.choices == faout[a0] && farules[a0] == r0 + 1
  ensures each: fcn == n0
  set cwx[cwn] = ch
  set cwf[cwn] = f
  set cwn = cwn + 1

func (*sequence).forEachChild(seq, f) r
  requires f != nil && gws == seq && gwr == seq.rule && ruleOf(box(seq)) == seq.rule && seq.rule != nil
  let n0 = fcn
  let r0 = frn
  let a0 = fan
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(seq) && frf[r0] == f && frat[r0] == n0 && seq.rule.rules == frout[r0]
  ensures same: r == box(seq)
  ensures array: !isnil(old(seq.sequence)) ==> fan == a0 + 1 && fain[a0] == old(seq.sequence) && faf[a0] == f && seq.sequence == faout[a0] && farules[a0] == r0 + 1
  ensures noarray: isnil(old(seq.sequence)) ==> fan == a0 && isnil(seq.sequence)
  ensures each: fcn == n0

func (str).forEachChild(s, f) r
  requires f != nil && gwr == s.rule && ruleOf(box(s)) == s.rule && s.rule != nil
  let n0 = fcn
  let r0 = frn
  modifies all
  ghostwrites
  ensures rules: frn == r0 + 1 && frx[r0] == box(s) && frf[r0] == f && frat[r0] == n0 && s.rule.rules == frout[r0]
  ensures each: fcn == n0
  ensures same: r == box(s)

# a rank's children are those of its choice
func (*rank).forEachChild(rk, f) r
  requires f != nil && rk.choice != nil && gwc == rk.choice && gwr == rk.choice.rule && ruleOf(box(rk.choice)) == gwr && gwr != nil
  let n0 = cwn
  modifies all
  ghostwrites
  ensures same: r == box(rk) && rk.choice == old(rk.choice)
  ensures choices: cwn == n0 + 1 && cwx[n0] == rk.choice && cwf[n0] == f

# ---- walking: Pre, then the children, then Post
ghost vn int
ghost vf map[int]func
ghost vnode map[int]Parser
ghost vparent map[int]Parser
ghost vout map[int]string
ghost vch map[int]int
functype func(Parser, Parser) string :: (f, node, parent) r
  modifies all
  set vf[vn] = f
  set vnode[vn] = node
  set vparent[vn] = parent
  set vout[vn] = r
  set vch[vn] = chn
  set vn = vn + 1

ghost wn int
ghost wnode map[int]Parser
ghost wparent map[int]Parser
ghost wpre map[int]func
ghost wpost map[int]func
ghost wres map[int]Parser
func Walk(ast, parent, prepost) r
  let v0 = vn
  let c0 = chn
  let w0 = wn
  let pre = prepost.Pre == nil ? 0 : 1
  let post = prepost.Post == nil ? 0 : 1
  modifies all
  ghostwrites
  each forEachChild(child) out :: isnil(child) || wn == old(wn) + 1 && wnode[old(wn)] == child && wparent[old(wn)] == ast && wpre[old(wn)] == prepost.Pre && wpost[old(wn)] == prepost.Post && out == wres[old(wn)] && vn == old(vn) && chn == old(chn)
  ensures before: pre == 1 ==> vn > v0 && vf[v0] == prepost.Pre && vnode[v0] == ast && vparent[v0] == parent && vch[v0] == c0
  ensures stop: pre == 1 && vout[v0] == "__stop__" ==> vn == v0 + 1 && chn == c0 && wn == w0
  ensures children: !(pre == 1 && vout[v0] == "__stop__") ==> chn == c0 + 1 && chp[c0] == ast && chv[c0] == v0 + pre && wn == w0
  ensures after: !(pre == 1 && vout[v0] == "__stop__") ==> vn == v0 + pre + post && (post == 1 ==> vf[vn - 1] == prepost.Post && vnode[vn - 1] == ast && vparent[vn - 1] == parent && vch[vn - 1] == c0 + 1)
  ensures same: r == ast
  set wnode[wn] = ast
  set wparent[wn] = parent
  set wpre[wn] = prepost.Pre
  set wpost[wn] = prepost.Post
  set wres[wn] = r
  set wn = wn + 1
