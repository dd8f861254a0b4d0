"""Small encoded documents and in-memory files for the collection properties."""
import io
import random
from docria.model import Document, DataTypes as T
from docria.codec import MsgpackCodec, MsgpackDocument


def small(seed, k, pad=0):
    doc = Document()
    doc.props["id"] = "doc%d" % k
    doc.props["n"] = k
    doc.props["pad"] = "".join(random.Random("%s/%s" % (seed, k)).choices("abcdefgh", k=pad))
    if k % 3 == 0:
        doc.maintext = "text of %d" % k
        L = doc.add_layer("tok", text=T.span(), v=T.int32)
        L.add(text=doc.maintext[0:4], v=k)
    return doc


class Keep(io.BytesIO):
    """a file that can be looked at after it was closed"""
    def close(self):
        self.saved = self.getvalue()
        super().close()
