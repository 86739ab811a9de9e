"""Spans and the choice of non-overlapping ones."""

from yargy.span import Span, resolve_spans, get_nexts


class span_size_order:
    props = 'C26 C09'

    def code(a: '=Span', b: '=Span') -> 'bool':
        return a < b

    def spec(a, b):
        return (a.start, a.stop) < (b.start, b.stop)


class span_equals_span:
    props = 'C26 C29'
    inline_eq = True

    def code(a: '=Span', b: '=Span') -> 'bool':
        return a == b

    def spec(a, b):
        return a.start == b.start and a.stop == b.stop


class span_equals_other:
    """A span is never equal to what is neither a span nor a tuple."""
    props = 'C29'
    inline_eq = True
    variants = {'other': ['=Token', '=Form', '=Tree']}

    def code(a: '=Span', other) -> 'bool':
        return a == other

    def spec(a, other):
        return False


class span_equals_tuple:
    props = 'C26'
    inline_eq = True

    def code(a: '=Span', start, stop) -> 'bool':
        return a == (start, stop)

    def spec(a, start, stop):
        return (a.start, a.stop) == (start, stop)


class span_hash:
    props = 'C26 C29'

    def code(a: '=Span'):
        return hash(a)

    def spec(a):
        return hash((a.start, a.stop))


class span_unpacks:
    props = 'C26'

    def code(a: '=Span'):
        start, stop = a
        return start, stop

    def spec(a):
        return a.start, a.stop


class span_text:
    props = 'C26'

    def code(a: '=Span'):
        return repr(a)

    def spec(a):
        return '[%s, %s)' % (a.start, a.stop)


class next_compatible:
    """For each span, the first span which starts at or after its end."""
    props = 'C09'
    premise = 'the spans are not empty, sorted and distinct'

    def code(spans: '[any]'):
        return list(get_nexts(spans))

    def spec(spans):
        result = []
        for _, stop in spans:
            found = None
            for i, (start, _) in enumerate(spans):
                if start >= stop:
                    found = i
                    break
            result.append(found)
        return result


class max_coverage:
    """Right to left: the best choice among the spans from i on either takes
    span i and the best choice from the first compatible span on, or is the
    best choice from i + 1 on; taking span i wins the ties."""
    props = 'C09 C04'
    opaque = ['get_nexts']
    premise = 'the spans are not empty, sorted and distinct'

    def code(spans: '[any]'):
        return list(resolve_spans(spans))

    def spec(spans):
        if not spans:
            return []
        after = list(get_nexts(spans))
        n = len(spans)
        best = [0] * n
        chosen = [None] * n
        for i in reversed(range(n)):
            start, stop = spans[i]
            size = stop - start
            if i == n - 1:
                best[i] = size
                chosen[i] = {i}
            else:
                total = size
                taken = {i}
                j = after[i]
                if j:
                    total = size + best[j]
                    taken = {i} | chosen[j]
                if total < best[i + 1]:
                    total = best[i + 1]
                    taken = chosen[i + 1]
                best[i] = total
                chosen[i] = taken
        return [spans[i] for i in sorted(chosen[0])]


class max_coverage_of_one:
    """The same for one spans in order."""
    props = 'C09 C04'

    def given(a0, a1):
        return a0 < a1

    def code(a0: 'int', a1: 'int'):
        return list(resolve_spans([(a0, a1)]))

    def spec(a0, a1):
        spans = [(a0, a1)]
        n = len(spans)
        after = []
        for x in spans:
            found = None
            for i, y in enumerate(spans):
                if y[0] >= x[1]:
                    found = i
                    break
            after.append(found)
        best = [0] * n
        chosen = [None] * n
        for i in reversed(range(n)):
            total = spans[i][1] - spans[i][0]
            taken = {i}
            if after[i]:
                total = total + best[after[i]]
                taken = {i} | chosen[after[i]]
            if i < n - 1 and total < best[i + 1]:
                total = best[i + 1]
                taken = chosen[i + 1]
            best[i] = total
            chosen[i] = taken
        return [spans[i] for i in sorted(chosen[0])]


class max_coverage_of_two:
    """The same for two spans in order."""
    props = 'C09 C04'

    def given(a0, a1, b0, b1):
        return a0 < a1 and \
            a0 < b1 and \
            b0 < b1

    def code(a0: 'int', a1: 'int', b0: 'int', b1: 'int'):
        return list(resolve_spans([(a0, a1), (b0, b1)]))

    def spec(a0, a1, b0, b1):
        spans = [(a0, a1), (b0, b1)]
        n = len(spans)
        after = []
        for x in spans:
            found = None
            for i, y in enumerate(spans):
                if y[0] >= x[1]:
                    found = i
                    break
            after.append(found)
        best = [0] * n
        chosen = [None] * n
        for i in reversed(range(n)):
            total = spans[i][1] - spans[i][0]
            taken = {i}
            if after[i]:
                total = total + best[after[i]]
                taken = {i} | chosen[after[i]]
            if i < n - 1 and total < best[i + 1]:
                total = best[i + 1]
                taken = chosen[i + 1]
            best[i] = total
            chosen[i] = taken
        return [spans[i] for i in sorted(chosen[0])]


class max_coverage_of_three:
    """The same for three spans in order."""
    props = 'C09 C04'

    def given(a0, a1, b0, b1, c0, c1):
        return a0 < a1 and \
            a0 < b1 and \
            a0 < c1 and \
            b0 < b1 and \
            b0 < c1 and \
            c0 < c1

    def code(a0: 'int', a1: 'int', b0: 'int', b1: 'int', c0: 'int', c1: 'int'):
        return list(resolve_spans([(a0, a1), (b0, b1), (c0, c1)]))

    def spec(a0, a1, b0, b1, c0, c1):
        spans = [(a0, a1), (b0, b1), (c0, c1)]
        n = len(spans)
        after = []
        for x in spans:
            found = None
            for i, y in enumerate(spans):
                if y[0] >= x[1]:
                    found = i
                    break
            after.append(found)
        best = [0] * n
        chosen = [None] * n
        for i in reversed(range(n)):
            total = spans[i][1] - spans[i][0]
            taken = {i}
            if after[i]:
                total = total + best[after[i]]
                taken = {i} | chosen[after[i]]
            if i < n - 1 and total < best[i + 1]:
                total = best[i + 1]
                taken = chosen[i + 1]
            best[i] = total
            chosen[i] = taken
        return [spans[i] for i in sorted(chosen[0])]


class max_coverage_of_nothing:
    props = 'C09'

    def code():
        return list(resolve_spans([]))

    def spec():
        return []
