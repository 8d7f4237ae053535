"""
Two Juice connections back to back, with answers that wait to be given.
"""
from twisted.internet.defer import Deferred, maybeDeferred

from mc.core import check, same, op
from mc.net import Link


class DeclaredA(Exception):
    pass


class DeclaredB(Exception):
    pass


class SubOfA(DeclaredA):
    pass


class FatalError(Exception):
    pass


class SubOfFatal(FatalError):
    pass


class Undeclared(Exception):
    pass


def catalogue():
    """The commands used by the juice harnesses."""
    from epsilon import juice

    class Ask(juice.Command):
        commandName = 'Ask'
        arguments = [('n', juice.Integer())]
        response = [('n', juice.Integer()), ('who', juice.Integer())]
        errors = {DeclaredA: 'DECL-A', DeclaredB: 'DECL-B'}
        fatalErrors = {FatalError: 'FATAL'}

    class AskChild(Ask):
        commandName = 'Ask-Child'

    return Ask, AskChild


def parties(pending, n=2, asks=None):
    """n Juice protocols whose handlers record themselves in `pending`."""
    from epsilon import juice
    Ask, AskChild = asks or catalogue()

    class Party(juice.Juice):
        def __init__(self, who):
            juice.Juice.__init__(self, bool(who))
            self.who = who

        def handle(self, n):
            d = Deferred()
            pending.append((self.who, n, d))
            return d

        def command_ASK(self, n):
            return self.handle(n)
        command_ASK.command = Ask

        def command_ASK_CHILD(self, n):
            return self.handle(n)
        command_ASK_CHILD.command = AskChild

        def juice_RAW(self, box):
            return self.handle(int(box['n']))
    return [Party(i) for i in range(n)]


def boxesOf(data):
    from epsilon import juice
    return [dict(b) for b in juice.parseString(data)]
