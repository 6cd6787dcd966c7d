from mbase import Base, norm
from mtext import Text
from mtime import Time
from mseq import Seq


class Models(Text, Time, Seq, Base):
    pass
