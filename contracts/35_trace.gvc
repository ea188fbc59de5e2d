package github.com/grepsuzette/joeson

# Tracing reads and never writes; nor does it panic.
props C17
func (*ParseContext).String(ctx) r
  requires ctxOk(ctx) && 0 <= ctx.stackLength
  modifies nothing
  nopanic

func (*ParseContext).log(ctx, message, opts)
  requires ctxOk(ctx) && 0 <= ctx.stackLength && opts != nil && ctx.parseOptions != nil
  modifies nothing
  nopanic

func prefix(p) r
  requires !isnil(p)
  modifies nothing
  nopanic

func String(ast) r
  requires !isnil(ast)
  modifies nothing
  nopanic
