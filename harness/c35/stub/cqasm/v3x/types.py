# stand-in for the module tree-gen makes: a node is what it was decoded from
class Node:
    def __init__(self, data): self.data = data
    def serialize(self): return self.data
    @staticmethod
    def deserialize(cbor): return Node(cbor)
    def __str__(self): return str(self.data)
TypeBase = Node
