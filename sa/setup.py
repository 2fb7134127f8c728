"""builds the extractor and parses the project once"""
from . import model
model.tool_path()
p = model.load()
print('%d translation units, %d functions' % (p.tus, len(p.funcs)))
