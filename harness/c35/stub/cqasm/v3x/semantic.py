class Program:
    def __init__(self, data): self.kind, self.data = 'semantic tree', data
    @staticmethod
    def deserialize(cbor): return Program(cbor)
Node = Program
