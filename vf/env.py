"""Prepares the imported package for testing (no effect on its behaviour)."""
import logging
import os
import warnings


def prepare():
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    import qtune
    import qtune.storage
    import qtune.util
    from vf import core
    if not os.path.realpath(qtune.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
        raise core.HarnessError('qtune is not imported from %s but %s' % (core.REPO, qtune.__file__))
    # the version string is obtained from a git subprocess for every file: slow and irrelevant here
    for module in (qtune.storage, qtune.util):
        if hasattr(module, 'get_version'):
            module.get_version = lambda: 'test'
    logger = logging.getLogger('qtune')
    logger.addHandler(logging.NullHandler())
    logger.propagate = False
    logger.setLevel(logging.CRITICAL)
    warnings.simplefilter('ignore')
