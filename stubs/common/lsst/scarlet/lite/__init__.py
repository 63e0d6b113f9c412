class Source:
    pass


class Blend:
    pass
