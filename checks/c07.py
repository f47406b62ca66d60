"""C07: destroying an object releases everything the object owns."""
from droprules import judge
EXPLANATION = "Every function is interpreted abstractly with the summaries of its callees. At each return on which an object it was given has been released, each pointer (or descriptor) member of that object, named after its declaration, is classified: released or passed to a function that releases it, known to be empty, or neither. The members the confirmed tree releases on every such path (frozen/drops.json) must be released or empty on every such path; the object itself must still be released by its destructor; every member some path of a function released must still be released by it (or by a helper it calls) on some path; and containers must still be made with the callback that releases their values."
ASSUMPTIONS = ["a member that the confirmed destructor does not release is borrowed", "members of a union are judged only where every kind of object releases them", "elements of arrays and lists are judged by the existence of a release, not for every element"]
def run(c):
    judge(c)
