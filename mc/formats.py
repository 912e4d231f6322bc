"""Header formats of a user, importable by name as pickling needs."""
from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32
from segpy.header import field
from segpy.trace_header import TraceHeaderRev1


class UserTraceHeader(TraceHeaderRev1):
    """The standard header, and two fields in its unassigned bytes."""

    first_of_mine = field(Int32, offset=233, default=0, documentation='One of mine')
    second_of_mine = field(Int16, offset=237, default=7, documentation='Another of mine')


class UserReelHeader(BinaryReelHeader):
    mine = field(Int16, offset=3301, default=3, documentation='Mine')
