"""configuration classes with typed fields, frozen after use"""


class FieldValidationError(ValueError):
    def __init__(self, field, config, msg):
        super().__init__('%s: %s' % (getattr(field, 'name', field), msg))


class _Sub:
    """Field[T](...) is Field(dtype=T, ...)"""
    def __init__(self, cls, t):
        self.cls, self.t = cls, t

    def __call__(self, *a, **k):
        k['dtype'] = self.t
        return self.cls(*a, **k)


class Field:
    def __class_getitem__(cls, t):
        return _Sub(cls, t)

    def __init__(self, doc='', dtype=None, default=None, check=None,
                 optional=False, deprecated=None, **kw):
        self.doc, self.dtype, self.default = doc, dtype, default
        self.checkf, self.optional = check, optional
        self.extra = kw

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return obj._storage[self.name]

    def __set__(self, obj, v):
        if obj._frozen:
            raise FieldValidationError(self, obj,
                                       'Cannot modify a frozen Config')
        self.put(obj, v)

    def put(self, obj, v):
        v = self.convert(obj, v)
        obj._storage[self.name] = v

    def convert(self, obj, v):
        if v is None:
            return v
        t = self.dtype
        if t is float and isinstance(v, int) and not isinstance(v, bool):
            v = float(v)
        if t is not None and not isinstance(v, t):
            raise FieldValidationError(self, obj, 'wrong type %r' % (v,))
        if self.checkf is not None and not self.checkf(v):
            raise FieldValidationError(self, obj, 'check failed')
        return v

    def init(self, obj):
        self.put(obj, self.default)

    def dump(self, obj):
        return obj._storage[self.name]

    def freeze(self, obj):
        pass

    def validate(self, obj):
        if not self.optional and obj._storage[self.name] is None:
            raise FieldValidationError(self, obj, 'Required value cannot be '
                                       'None')


class ListField(Field):
    def convert(self, obj, v):
        if v is None:
            return v
        if isinstance(v, str):
            raise FieldValidationError(self, obj, 'not a sequence')
        v = list(v)
        for x in v:
            if self.dtype is not None and not isinstance(x, self.dtype):
                raise FieldValidationError(self, obj, 'wrong type %r' % (x,))
        return v

    def dump(self, obj):
        v = obj._storage[self.name]
        return None if v is None else list(v)


class ChoiceField(Field):
    def __init__(self, doc='', dtype=None, allowed=None, default=None,
                 optional=True, **kw):
        super().__init__(doc, dtype, default, optional=optional, **kw)
        self.allowed = dict(allowed)
        if optional:
            self.allowed[None] = ''

    def convert(self, obj, v):
        v = super().convert(obj, v)
        if v not in self.allowed:
            raise FieldValidationError(self, obj, 'Value %s is not allowed'
                                       % (v,))
        return v


class ConfigField(Field):
    def init(self, obj):
        obj._storage[self.name] = self.dtype()

    def put(self, obj, v):
        if isinstance(v, type):
            v = v()
        if not isinstance(v, self.dtype):
            raise FieldValidationError(self, obj, 'wrong type')
        new = self.dtype()
        for n in v._storage:
            new._storage[n] = v._storage[n]
        obj._storage[self.name] = new

    def dump(self, obj):
        return obj._storage[self.name].toDict()

    def freeze(self, obj):
        obj._storage[self.name].freeze()

    def validate(self, obj):
        obj._storage[self.name].validate()


class ConfigurableInstance:
    """a task class together with its config"""

    def __init__(self, field, obj, target):
        self.__dict__['_field'] = field
        self.__dict__['_obj'] = obj
        self.__dict__['target'] = target
        self.__dict__['value'] = self._cls()()

    def _cls(self):
        return self.target.ConfigClass

    def apply(self, *a, **k):
        return self.target(*a, config=self.value, **k)

    def retarget(self, target, ConfigClass=None, **k):
        if self._obj._frozen:
            raise FieldValidationError(self._field, self._obj,
                                       'Cannot modify a frozen Config')
        self.__dict__['target'] = target
        self.__dict__['value'] = self._cls()()

    def __getattr__(self, n):
        return getattr(self.value, n)

    def __setattr__(self, n, v):
        if self._obj._frozen:
            raise FieldValidationError(self._field, self._obj,
                                       'Cannot modify a frozen Config')
        setattr(self.value, n, v)


class ConfigurableField(Field):
    def __init__(self, doc='', target=None, ConfigClass=None, default=None,
                 dtype=None, **kw):
        super().__init__(doc)
        self.target = target

    def init(self, obj):
        obj._storage[self.name] = ConfigurableInstance(self, obj, self.target)

    def put(self, obj, v):
        inst = obj._storage[self.name]
        if isinstance(v, ConfigurableInstance):
            inst.__dict__['target'] = v.target
            v = v.value
        if isinstance(v, type):
            v = v()
        new = inst._cls()()
        if not isinstance(v, type(new)) and not isinstance(new, type(v)):
            raise FieldValidationError(self, obj, 'wrong type')
        for n in v._storage:
            new._storage[n] = v._storage[n]
        inst.__dict__['value'] = new

    def dump(self, obj):
        return obj._storage[self.name].value.toDict()

    def freeze(self, obj):
        obj._storage[self.name].value.freeze()

    def validate(self, obj):
        obj._storage[self.name].value.validate()


class Config:
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.__dict__['_frozen'] = False
        o.__dict__['_storage'] = {}
        return o

    @classmethod
    def _allfields(cls):
        out = {}
        for k in reversed(cls.__mro__):
            for n, f in vars(k).items():
                if isinstance(f, Field):
                    out[n] = f
        return out

    def __init__(self, **kw):
        self.__dict__['_fields'] = self._allfields()
        for f in self._fields.values():
            f.init(self)
        self.setDefaults()
        self.update(**kw)

    def update(self, **kw):
        for n, v in kw.items():
            setattr(self, n, v)

    def setDefaults(self):
        pass

    def __setattr__(self, n, v):
        if n in self._fields:
            self._fields[n].__set__(self, v)
        elif hasattr(getattr(type(self), n, None), '__set__'):
            object.__setattr__(self, n, v)
        else:
            raise AttributeError('%s has no attribute %s'
                                 % (type(self).__name__, n))

    def toDict(self):
        return {n: f.dump(self) for n, f in self._fields.items()}

    def freeze(self):
        self.__dict__['_frozen'] = True
        for f in self._fields.values():
            f.freeze(self)

    def validate(self):
        for f in self._fields.values():
            f.validate(self)

    def items(self):
        return [(n, getattr(self, n)) for n in self._fields]

    def keys(self):
        return list(self._fields)
