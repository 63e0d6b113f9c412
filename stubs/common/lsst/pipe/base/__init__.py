import logging


class TaskError(Exception):
    pass


class Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Task:
    ConfigClass = None
    _DefaultName = None

    def __init__(self, config=None, name=None, parentTask=None, log=None):
        if config is None:
            config = self.ConfigClass()
        self.config = config
        self._parentTask = parentTask
        self._name = name or self._DefaultName
        self.log = logging.getLogger(self._name or 'task')

    def makeSubtask(self, name, **kw):
        field = getattr(self.config, name)
        setattr(self, name, field.apply(name=name, parentTask=self, **kw))
