class _Model:
    pass


class V1ObjectMeta(_Model):
    def __init__(self, annotations=None, creation_timestamp=None, deletion_timestamp=None, finalizers=None, generate_name=None,
                 generation=None, labels=None, name=None, namespace=None, owner_references=None, resource_version=None, uid=None):
        self.annotations = annotations
        self.creation_timestamp = creation_timestamp
        self.deletion_timestamp = deletion_timestamp
        self.finalizers = finalizers
        self.generate_name = generate_name
        self.generation = generation
        self.labels = labels
        self.name = name
        self.namespace = namespace
        self.owner_references = owner_references
        self.resource_version = resource_version
        self.uid = uid


class V1ListMeta(_Model):
    def __init__(self, _continue=None, remaining_item_count=None, resource_version=None, self_link=None):
        self._continue = _continue
        self.remaining_item_count = remaining_item_count
        self.resource_version = resource_version
        self.self_link = self_link


class V1Pod(_Model):
    def __init__(self, api_version=None, kind=None, metadata=None, spec=None, status=None):
        self.api_version = api_version
        self.kind = kind
        self.metadata = metadata
        self.spec = spec
        self.status = status


class V1PodList(_Model):
    def __init__(self, api_version=None, items=None, kind=None, metadata=None):
        self.api_version = api_version
        self.items = items
        self.kind = kind
        self.metadata = metadata


class V1Node(V1Pod):
    pass


class V1NodeList(V1PodList):
    pass


class V1Service(V1Pod):
    pass


class V1ConfigMap(_Model):
    def __init__(self, api_version=None, binary_data=None, data=None, immutable=None, kind=None, metadata=None):
        self.api_version = api_version
        self.binary_data = binary_data
        self.data = data
        self.immutable = immutable
        self.kind = kind
        self.metadata = metadata
