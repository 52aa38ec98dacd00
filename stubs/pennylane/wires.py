WiresLike = None
