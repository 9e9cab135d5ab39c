annotations = None
