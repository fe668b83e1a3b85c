"""C08: the Propositional parser against the reference grammar on every text of the bounded spaces."""
from mc import parsing

ASSUMPTIONS = ["the reference grammar in mc/grammar.py transcribes docs/grammars.md"]


def run(check):
    parsing.run(check, "pl")
