"""The unified generic compressor chart, rates and heads relative to the design point, as documented at the pinned commit."""

TOP = (
    [0.878913798, 0.929112832, 0.97269818, 1.038726745, 1.099463139, 1.158871891, 1.231463064, 1.278951663, 1.323778851],
    [1.289869247, 1.271644457, 1.247344747, 1.200770298, 1.148120922, 1.089396618, 0.99827269, 0.913223698, 0.809949924],
)
BOTTOM = (
    [0.498902665, 0.529285159, 0.553058057, 0.612499498, 0.667962103, 0.70889013, 0.730015921],
    [0.558852888, 0.546703033, 0.5325282, 0.506203512, 0.46570399, 0.427229447, 0.409004665],
)


def curves(rate, head, eta):
    """the generic chart with a design point"""
    return [(n, [rate * x for x in q], [head * x for x in h], [eta] * len(q)) for n, (q, h) in ((75.0, BOTTOM), (105.0, TOP))]
