class Root:
    def __init__(self, data): self.kind, self.data = 'syntax tree', data
    @staticmethod
    def deserialize(cbor): return Root(cbor)
Node = Root
