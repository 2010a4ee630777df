"""Pac-Man demo: helpers."""


class manhattan:
    """C31: the Manhattan distance"""
    target = 'manhattanDistance'

    def code(x: float, y: float, a: float, b: float):
        return manhattanDistance((x, y), (a, b))

    def spec(x: float, y: float, a: float, b: float):
        return abs(x - a) + abs(y - b)


class nearest:
    """C31: the nearest cell of a position"""
    target = 'nearestPoint'

    def code(x: float, y: float):
        return nearestPoint((x, y))

    def spec(x: float, y: float):
        return (int(x + 0.5), int(y + 0.5))


class sign_of:
    """C31: the sign of a number"""
    target = 'sign'

    def code(x: float):
        return sign(x)

    def spec(x: float):
        return 1 if x >= 0 else -1


class stack_order:
    """C31: a stack gives back the last item pushed"""
    target = 'Stack.pop'

    def code(a: Any, b: Any, c: Any):
        s = Stack()
        e = s.isEmpty()
        s.push(a)
        s.push(b)
        x = s.pop()
        s.push(c)
        f = s.isEmpty()
        return (e, x, s.pop(), s.pop(), f, s.isEmpty())

    def spec(a: Any, b: Any, c: Any):
        return (True, b, c, a, False, True)


class queue_order:
    """C31: a queue gives back the first item pushed"""
    target = 'Queue.pop'

    def code(a: Any, b: Any, c: Any):
        s = Queue()
        e = s.isEmpty()
        s.push(a)
        s.push(b)
        x = s.pop()
        s.push(c)
        f = s.isEmpty()
        return (e, x, s.pop(), s.pop(), f, s.isEmpty())

    def spec(a: Any, b: Any, c: Any):
        return (True, a, b, c, False, True)


class queue_any:
    """C31: whatever a queue holds, an item goes to one end and the item at the other end comes out"""
    target = 'Queue.push'
    fails = 'ignore'

    def code(xs: List[Any], a: Any):
        s = Queue()
        s.list = list(xs)
        s.push(a)
        return s.list

    def spec(xs: List[Any], a: Any):
        return [a] + xs

    def spec_2(xs: List[Any], a: Any):
        return xs + [a]


class layout_cells:
    """C26: each character of a layout places what it stands for at its cell and nothing else"""
    target = 'Layout.processLayoutChar'

    def code(l: Layout, x: int, y: int, c: str):
        l.processLayoutChar(x, y, c)

    def spec(l: Layout, x: int, y: int, c: str):
        if c == '%':
            l.walls.data[x][y] = True
        elif c == '.':
            l.food.data[x][y] = True
        elif c == 'o':
            l.capsules.append((x, y))
        elif c == 'P':
            l.agentPositions.append((0, (x, y)))
        elif c == 'G':
            l.agentPositions.append((1, (x, y)))
            l.numGhosts = l.numGhosts + 1
        elif c == '1' or c == '2' or c == '3' or c == '4':
            l.agentPositions.append((int(c), (x, y)))
            l.numGhosts = l.numGhosts + 1


class heap_order:
    """C31: a priority queue gives back the item of lowest priority, of equal ones the first pushed"""
    target = 'PriorityQueue.pop'
    effects = 'ignore'

    def code(x: Any, y: Any, p: int, r: int):
        q = PriorityQueue()
        q.push(x, p)
        q.push(y, r)
        a = q.pop()
        b = q.pop()
        return (a, b, q.isEmpty())

    def spec(x: Any, y: Any, p: int, r: int):
        return (y if r < p else x, x if r < p else y, True)


class heap_update:
    """C31: updating an item of a priority queue gives it the lower of the two priorities"""
    target = 'PriorityQueue.update'
    effects = 'ignore'

    def code(x: Any, p: int, r: int):
        q = PriorityQueue()
        q.push(x, p)
        q.update(x, r)
        return q.heap

    def spec(x: Any, p: int, r: int):
        return [(r if r < p else p, 0, x)]


class heap_update_order:
    """C31: after an update the items still come by priority"""
    target = 'PriorityQueue.update'
    effects = 'ignore'

    def pre(x: Any, y: Any, p: int, r: int, s: int):
        return x != y

    def code(x: Any, y: Any, p: int, r: int, s: int):
        q = PriorityQueue()
        q.push(x, p)
        q.push(y, r)
        q.update(y, s)
        return q.pop()

    def spec(x: Any, y: Any, p: int, r: int, s: int):
        return y if s < p or r < p else x


class heap_update_new:
    """C31: updating an item the priority queue does not hold pushes it"""
    target = 'PriorityQueue.update'
    effects = 'ignore'

    def pre(x: Any, y: Any, p: int, r: int):
        return x != y

    def code(x: Any, y: Any, p: int, r: int):
        q = PriorityQueue()
        q.push(x, p)
        q.update(y, r)
        return (q.pop(), q.pop())

    def spec(x: Any, y: Any, p: int, r: int):
        return (y if r < p else x, x if r < p else y)
