def parse(s):
    return tuple(int(x) for x in s.split('.')[:3])
