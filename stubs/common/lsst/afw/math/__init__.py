class FixedKernel:
    def __init__(self, image):
        self.image = image
