"""C10, C11, C12: AST objects against FluentTree (TreeTrace.tla)."""
import trees


def run(ctx):
    ctx.model_check("TreeMC", env={"DEPTH": str(ctx.pick(2, 3))})
    ctx.conform("objects", "TreeTrace", trees.record, trees.inputs(ctx, ctx.pick(1500, 20000)), batch=1500)
