"""Recording stand-ins for drawing calls during concrete replays."""
C = None


class Drawn:
    """records calls; `_root` is the object a method belongs to"""

    def __init__(self, name, own=None, root=None):
        self._name, self._own, self._root = name, own, self if root is None else root

    @staticmethod
    def _c():
        return C

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return type(self)(self._name + '.' + n, self._own, self._root)

    def __call__(self, *a, **k):
        c = self._c()
        c.onto.append(self._root)
        c.drawing(self._name, a, k)
        n = self._name.rsplit('.', 1)[-1]
        if n == 'plot':
            return lines(c, a, type(self))
        if n.startswith('get_') and self._own and n[4:] in self._own:
            return self._own[n[4:]]
        return type(self)('obj')

    def __iter__(self):
        return iter([type(self)('item')])

    def __getitem__(self, i):
        own = self.__dict__.setdefault('_items', {})
        if isinstance(i, (int, tuple)) and i in own:
            return own[i]
        item = type(self)(self._name + '[]')
        if isinstance(i, (int, tuple)):
            own[i] = item
        return item

    def __setitem__(self, i, v):
        self._c().onto.append(self._root)
        self._c().drawing(self._name + '.set')

    def __len__(self):
        return 1


def lines(c, a, make):
    """one line per column of the plotted data"""
    if len(a) < 2 or isinstance(a[1], str):
        return [make('line')]
    x, y = c.np.asarray(a[0]), c.np.asarray(a[1])
    if len(x.shape) < 2:
        return [make('line', dict(xdata=x, ydata=y))]
    return [make('line', dict(xdata=x[:, i], ydata=y[:, i])) for i in range(x.shape[1])]


def subplots(*a, **k):
    return Drawn('plt.subplots')(*a, **k), Drawn('ax')


def heatmap(data, **kw):
    C.heat.append((data, kw))
    C.onto.append(None)
    C.drawing('sns.heatmap', (data,), kw)
    return kw.get('ax') or Drawn('ax')
