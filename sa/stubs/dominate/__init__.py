"""What HTTPolice uses of Dominate, for the abstract interpreter only."""
from dominate import tags


class document(tags.dom_tag):

    def __init__(self, title=''):
        sink_text(title)
        self.head = tags.head()
        self.body = tags.body()
