from .interp import Interp
from .exprs import Exprs
from .objs import Objs
from .loops import Loops
from .ext import Ext_
from .gens import Gens


class Machine(Exprs, Objs, Loops, Gens, Ext_, Interp):
    pass
