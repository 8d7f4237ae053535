"""
The environment the checks run the code in: /repo's working tree, nothing else.
"""
import os, sys, types

REPO = os.environ.get('MC_REPO', '/repo')


def prepare(ctx):
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != REPO]
    sys.path.insert(0, REPO)
    # epsilon/_version.py is generated by the build and not part of the tree.
    if not os.path.exists(os.path.join(REPO, 'epsilon', '_version.py')):
        m = types.ModuleType('epsilon._version')
        m.__version__ = version = '0.8.0'
        m.version = version
        sys.modules['epsilon._version'] = m
    import epsilon
    assert os.path.realpath(epsilon.__file__).startswith(os.path.realpath(REPO) + '/'), epsilon.__file__
    # Nothing may reach the console through Twisted's logging; errors logged
    # are kept for the checks that look at them.
    from twisted.logger import globalLogBeginner

    def observer(event):
        if event.get('log_failure') is not None or event.get('isError'):
            ctx.logged.append(event)
    globalLogBeginner.beginLoggingTo([observer], discardBuffer=True, redirectStandardIO=False)
