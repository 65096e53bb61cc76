"""
ipyw.py: stand-ins for ipywidgets, IPython.display and tkinter.

None of the three packages is installed here.  The stand-in widgets follow
the documented behaviour of ipywidgets 8 / traitlets 5: a trait notifies its
observers when its value changes, class handlers first, then the observers
of that trait, then the observers of every trait; exceptions of observers
propagate; selections keep ``index``, ``label`` and ``value`` in step, select
the first option when the options change (``SelectMultiple``: nothing) and
refuse values which are not options; bounded numbers are clamped.
"""
import sys
import types


class TraitError(Exception):
    pass


class Bunch(dict):
    __getattr__ = dict.__getitem__


class HasTraits:
    """values with change notifications"""
    traits = ()

    def __init__(self, **kwargs):
        self.__dict__['_v'] = {}
        self.__dict__['_obs'] = []
        self.__dict__['_ready'] = False

    def __getattr__(self, name):
        v = self.__dict__.get('_v', {})
        if name in v:
            return v[name]
        raise AttributeError(name)

    def __setattr__(self, name, value):
        if name not in self.traits:
            self.__dict__[name] = value
            return
        value = getattr(self, f'_validate_{name}', lambda x: x)(value)
        old = self._v.get(name)
        self._v[name] = value
        if not self._ready:
            return
        try:
            same = (type(old) is type(value)) and bool(old == value)
        except Exception:
            same = False
        if not same:
            self._notify(name, old, value)

    def _notify(self, name, old, new):
        change = Bunch(name=name, old=old, new=new, owner=self, type='change')
        own = getattr(self, f'_on_{name}', None)
        if own is not None:
            own(change)
        for handler, names in list(self._obs):
            if names is not None and name in names:
                handler(change)
        for handler, names in list(self._obs):
            if names is None:
                handler(change)

    def observe(self, handler, names=None, type='change'):
        if isinstance(names, str):
            names = None if names == 'All' else (names,)
        if not any(h == handler and n == names for h, n in self._obs):
            self._obs.append((handler, names))

    def unobserve(self, handler, names=None, type='change'):
        if isinstance(names, str):
            names = None if names == 'All' else (names,)
        self._obs.remove((handler, names))

    def unobserve_all(self, name=None):
        del self._obs[:]


class Widget(HasTraits):
    traits = ('value', 'description', 'disabled', 'style', 'layout')

    def __init__(self, **kwargs):
        HasTraits.__init__(self)
        self._v.update(description='', disabled=False, style={}, layout={})
        self._setup(kwargs)
        for k, v in kwargs.items():
            setattr(self, k, v)
        self.__dict__['_ready'] = True

    def _setup(self, kwargs):
        pass


class Text(Widget):
    def _setup(self, kwargs):
        self._v['value'] = ''

    def _validate_value(self, x):
        if not isinstance(x, str):
            raise TraitError(f'expected a unicode string, not {x!r}')
        return x


class Label(Text):
    pass


class Checkbox(Widget):
    def _setup(self, kwargs):
        self._v['value'] = False

    def _validate_value(self, x):
        if x not in (0, 1):
            raise TraitError(f'expected a boolean, not {x!r}')
        return bool(x)


class Button(Widget):
    def _setup(self, kwargs):
        self.__dict__['_clicks'] = []

    def on_click(self, callback, remove=False):
        if remove:
            self._clicks.remove(callback)
        elif callback not in self._clicks:
            self._clicks.append(callback)

    def click(self):
        for c in list(self._clicks):
            c(self)


class _Bounded(Widget):
    traits = Widget.traits + ('min', 'max', 'step')
    kind = float

    def _setup(self, kwargs):
        self._v.update(min=self.kind(0), max=self.kind(100),
            step=self.kind(1), value=self.kind(0))
        lo, hi = kwargs.pop('min', None), kwargs.pop('max', None)
        value = kwargs.pop('value', None)
        lo = self._v['min'] if lo is None else self._number(lo)
        hi = self._v['max'] if hi is None else self._number(hi)
        if lo > hi:
            raise TraitError('setting min > max')
        self._v.update(min=lo, max=hi)
        self._v['value'] = self._clamp(lo if value is None else value)

    def _number(self, x):
        if isinstance(x, bool):
            raise TraitError('expected a number')
        if self.kind is int:
            try:
                import operator
                return operator.index(x)
            except TypeError:
                raise TraitError(f'expected an int, not {x!r}')
        return float(x)

    def _clamp(self, x):
        return min(max(self._number(x), self._v['min']), self._v['max'])

    def _validate_value(self, x):
        return self._clamp(x)

    def _validate_min(self, x):
        x = self._number(x)
        if x > self._v['max']:
            raise TraitError('setting min > max')
        if x > self._lowest():
            self.value = self._raised(x)
        return x

    def _validate_max(self, x):
        x = self._number(x)
        if x < self._v['min']:
            raise TraitError('setting max < min')
        if x < self._highest():
            self.value = self._lowered(x)
        return x

    def _lowest(self):
        return self._v['value']

    _highest = _lowest

    def _raised(self, x):
        return x

    _lowered = _raised


class BoundedIntText(_Bounded):
    kind = int


class BoundedFloatText(_Bounded):
    kind = float


class IntSlider(_Bounded):
    kind = int


class IntRangeSlider(_Bounded):
    kind = int

    def _clamp(self, x):
        a, b = x
        if a is self._v['min'] and x is self._v['min']:
            pass
        a, b = self._number(a), self._number(b)
        if a > b:
            raise TraitError('setting lower > upper')
        return tuple(min(max(i, self._v['min']), self._v['max'])
            for i in (a, b))

    def _lowest(self):
        return self._v['value'][0]

    def _highest(self):
        return self._v['value'][1]

    def _raised(self, x):
        return (x, max(x, self._v['value'][1]))

    def _lowered(self, x):
        return (min(x, self._v['value'][0]), x)


class Box(Widget):
    traits = Widget.traits + ('children',)

    def __init__(self, children=(), **kwargs):
        Widget.__init__(self, **kwargs)
        self.children = tuple(children)


class HBox(Box):
    pass


class VBox(Box):
    pass


def pairs(options):
    if hasattr(options, 'items'):
        return tuple((str(k), v) for k, v in options.items())
    options = tuple(options)
    if options and all(isinstance(i, (list, tuple)) and len(i) == 2
            for i in options):
        return tuple((str(k), v) for k, v in options)
    return tuple((str(i), i) for i in options)


class _Selection(Widget):
    traits = Widget.traits + ('options', 'index', 'label', '_options_labels')

    def _setup(self, kwargs):
        options = kwargs.pop('options', ())
        options = options if hasattr(options, 'items') else tuple(options)
        self.__dict__['_pairs'] = pairs(options)
        self._v.update(options=options, index=None, value=None, label=None,
            _options_labels=tuple(k for k, v in self._pairs))
        self._initial(kwargs)

    def _validate_options(self, options):
        options = options if hasattr(options, 'items') else tuple(options)
        self.__dict__['_pairs'] = pairs(options)
        return options

    @property
    def _values(self):
        return [v for k, v in self._pairs]


class Dropdown(_Selection):
    def _initial(self, kwargs):
        if 'value' in kwargs:
            i = self._find(kwargs.pop('value'))
        elif 'index' in kwargs:
            i = self._validate_index(kwargs.pop('index'))
        else:
            i = 0 if self._pairs else None
        self._v['index'] = i
        if i is not None:
            self._v['label'], self._v['value'] = self._pairs[i]

    def _find(self, value):
        if value is None:
            return None
        for i, v in enumerate(self._values):
            if v == value:
                return i
        raise TraitError(f'Invalid selection: value not found: {value!r}')

    def _validate_index(self, i):
        if i is None or 0 <= i < len(self._pairs):
            return i
        raise TraitError('Invalid selection: index out of bounds')

    def _validate_value(self, value):
        i = self._find(value)
        return None if i is None else self._values[i]

    def _validate_label(self, label):
        if label is not None and label not in [k for k, v in self._pairs]:
            raise TraitError('Invalid selection: label not found')
        return label

    def _on_options(self, change):
        self._options_labels = tuple(k for k, v in self._pairs)
        if self._pairs:
            if self.index == 0:
                self._notify('index', 0, 0)
            else:
                self.index = 0
        else:
            self.index = None

    def _on_index(self, change):
        label, value = (None, None) if change.new is None else \
            self._pairs[change.new]
        if self.label != label:
            self.label = label
        if self.value != value:
            self.value = value

    def _on_value(self, change):
        i = self._find(change.new)
        if self.index is not None and self.index < len(self._pairs) and \
                self._values[self.index] == change.new:
            i = self.index
        if self.index != i:
            self.index = i

    def _on_label(self, change):
        labels = [k for k, v in self._pairs]
        i = None if change.new is None else labels.index(change.new)
        if self.index is not None and self.index < len(labels) and \
                labels[self.index] == change.new:
            i = self.index
        if self.index != i:
            self.index = i


class SelectMultiple(_Selection):
    def _initial(self, kwargs):
        value = kwargs.pop('value', ())
        self._v['index'] = self._find(value)
        self._v['value'] = tuple(value)
        self._v['label'] = tuple(self._pairs[i][0] for i in self._v['index'])

    def _find(self, value):
        out = []
        for x in value:
            for i, v in enumerate(self._values):
                if v == x:
                    out.append(i)
                    break
            else:
                raise TraitError('Invalid selection: value not found: '
                    f'{x!r}')
        return tuple(out)

    def _validate_index(self, index):
        if all(0 <= i < len(self._pairs) for i in index):
            return tuple(index)
        raise TraitError('Invalid selection: index out of bounds')

    def _validate_value(self, value):
        self._find(value)
        return tuple(value)

    def _on_options(self, change):
        self._options_labels = tuple(k for k, v in self._pairs)
        self.index = ()

    def _on_index(self, change):
        self.label = tuple(self._pairs[i][0] for i in change.new)
        value = tuple(self._pairs[i][1] for i in change.new)
        if self.value != value:
            self.value = value

    def _on_value(self, change):
        self.index = self._find(change.new)

    def _on_label(self, change):
        labels = [k for k, v in self._pairs]
        self.index = tuple(labels.index(k) for k in change.new)


class Dialogs:
    """answers of the file dialogs and what was asked"""
    def __init__(self):
        self.answers = []
        self.asked = []

    def _next(self, kind, kwargs):
        types_ = kwargs.get('filetypes', ())
        for t in types_:
            # Tk: each type is a name and patterns
            if not isinstance(t, (list, tuple)) or len(t) < 2:
                raise RuntimeError(f'bad file type "{t}", should be '
                    '"typeName {extension ?extensions ...?}"')
        self.asked.append((kind, bool(kwargs.get('multiple', False))))
        return self.answers.pop(0)

    def askdirectory(self, **kwargs):
        return self._next('directory', kwargs)

    def askopenfilename(self, **kwargs):
        return self._next('file', kwargs)

    def askopenfilenames(self, **kwargs):
        return self._next('file', dict(kwargs, multiple=True))


class Tk:
    def withdraw(self):
        pass

    def call(self, *args):
        pass

    def destroy(self):
        pass

    def attributes(self, *args):
        pass


dialogs = Dialogs()


def install():
    """make the stand-ins importable (before gravity_toolkit)"""
    w = types.ModuleType('ipywidgets')
    for c in (Text, Label, Checkbox, Button, BoundedIntText, BoundedFloatText,
            IntSlider, IntRangeSlider, HBox, VBox, Box, Dropdown,
            SelectMultiple, Widget):
        setattr(w, c.__name__, c)
    w.__version__ = '8.1.0'
    sys.modules['ipywidgets'] = w
    ip = types.ModuleType('IPython')
    ip.display = types.ModuleType('IPython.display')
    ip.display.clear_output = lambda *a, **k: None
    sys.modules['IPython'] = ip
    sys.modules['IPython.display'] = ip.display
    tk = types.ModuleType('tkinter')
    tk.Tk = Tk
    fd = types.ModuleType('tkinter.filedialog')
    fd.askdirectory = dialogs.askdirectory
    fd.askopenfilename = dialogs.askopenfilename
    fd.askopenfilenames = dialogs.askopenfilenames
    tk.filedialog = fd
    sys.modules['tkinter'] = tk
    sys.modules['tkinter.filedialog'] = fd
    return w
