"""Model of the part of sympy.combinatorics the package uses."""


class Permutation:
    def __init__(self, images):
        self.images = [int(i) for i in images]

    def __pow__(self, n):
        if n == 1:
            return Permutation(self.images)
        if n != -1:
            raise NotImplementedError
        res = [0] * len(self.images)
        for i in range(len(self.images)):
            res[self.images[i]] = i
        return Permutation(res)

    def __iter__(self):
        return iter(self.images)

    def __len__(self):
        return len(self.images)

    def __getitem__(self, i):
        return self.images[i]
