"""The seam between application callbacks (dst.app) and the simulator."""
CTX = [None]


class CallbackFault(Exception):
    """Raised by application callbacks when the fault plan says so."""


def callback(name, value=None):
    ctx = CTX[0]
    if ctx is not None:
        ctx.on_callback(name, value)
