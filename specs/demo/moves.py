"""Pac-Man demo: directions, vectors and moves."""


class direction_tables:
    """C27: turning left, right and around are each other's inverses on the five directions"""
    target = 'Directions.LEFT'

    def code():
        d = Directions
        return ([d.LEFT[x] for x in ['North', 'South', 'East', 'West', 'Stop']],
                [d.RIGHT[x] for x in ['North', 'South', 'East', 'West', 'Stop']],
                [d.REVERSE[x] for x in ['North', 'South', 'East', 'West', 'Stop']])

    def spec():
        return (['West', 'East', 'North', 'South', 'Stop'], ['East', 'West', 'South', 'North', 'Stop'],
                ['South', 'North', 'West', 'East', 'Stop'])


class reverse_direction:
    """C27: the reverse of a direction is its opposite"""
    target = 'Actions.reverseDirection'

    def code(a: Any):
        return Actions.reverseDirection(a)

    def spec(a: Any):
        return 'South' if a == 'North' else 'North' if a == 'South' else 'West' if a == 'East' else \
            'East' if a == 'West' else a


class vector_to_direction:
    """C27: a vector points north, south, west, east or nowhere, vertical movement first"""
    target = 'Actions.vectorToDirection'

    def code(x: float, y: float):
        return Actions.vectorToDirection((x, y))

    def spec(x: float, y: float):
        if y > 0:
            return 'North'
        if y < 0:
            return 'South'
        if x < 0:
            return 'West'
        if x > 0:
            return 'East'
        return 'Stop'


class any_vector_to_direction:
    """C27: a vector of any length points where its parts point, the vertical one first"""
    target = 'Actions.vectorToDirection'

    def code(x: Any, y: Any):
        return Actions.vectorToDirection((x, y))

    def spec(x: Any, y: Any):
        return 'North' if y > 0 else 'South' if y < 0 else 'West' if x < 0 else 'East' if x > 0 else 'Stop'


class direction_to_vector:
    """C27: the vector of a direction has the given speed as its length and points that way"""
    target = 'Actions.directionToVector'

    def code(s: float):
        return (Actions.directionToVector('North', s), Actions.directionToVector('South', s),
                Actions.directionToVector('East', s), Actions.directionToVector('West', s),
                Actions.directionToVector('Stop', s), Actions.directionToVector('West'))

    def spec(s: float):
        return ((0, s), (0, -s), (s, 0), (-s, 0), (0, 0), (-1, 0))


class configuration_successor:
    """C27: a configuration moved by a vector is translated by it and faces along it, keeping its facing when standing"""
    target = 'Configuration.generateSuccessor'

    def code(x: float, y: float, a: float, b: float, d: str):
        c = Configuration((x, y), d).generateSuccessor((a, b))
        return (c.pos, c.direction, c.getPosition(), c.getDirection())

    def spec(x: float, y: float, a: float, b: float, d: str):
        v = 'North' if b > 0 else 'South' if b < 0 else 'West' if a < 0 else 'East' if a > 0 else d
        return ((x + a, y + b), v, (x + a, y + b), v)


class position_successor:
    """C27: the position after an action is one step along it"""
    target = 'Actions.getSuccessor'

    def code(x: float, y: float):
        return (Actions.getSuccessor((x, y), 'North'), Actions.getSuccessor((x, y), 'South'),
                Actions.getSuccessor((x, y), 'East'), Actions.getSuccessor((x, y), 'West'),
                Actions.getSuccessor((x, y), 'Stop'))

    def spec(x: float, y: float):
        return ((x, y + 1), (x, y - 1), (x + 1, y), (x - 1, y), (x, y))


class possible_actions:
    """C27: between cells an agent can only go on; on a cell it can go wherever there is no wall, or stop"""
    target = 'Actions.getPossibleActions'

    def code(c: Configuration, w: Grid):
        return set(Actions.getPossibleActions(c, w))

    def spec(c: Configuration, w: Grid):
        x, y = c.pos
        i, j = int(x + 0.5), int(y + 0.5)
        if abs(x - i) + abs(y - j) > 0.001:
            return {c.direction}
        r = []
        if not w.data[i][j + 1]:
            r.append('North')
        if not w.data[i][j - 1]:
            r.append('South')
        if not w.data[i + 1][j]:
            r.append('East')
        if not w.data[i - 1][j]:
            r.append('West')
        if not w.data[i][j]:
            r.append('Stop')
        return set(r)


class legal_neighbours:
    """C27: legal neighbours are the cells one step away, and the cell itself, inside the grid and not walls"""
    target = 'Actions.getLegalNeighbors'

    def code(x: float, y: float, w: Grid):
        return set(Actions.getLegalNeighbors((x, y), w))

    def spec(x: float, y: float, w: Grid):
        i, j = int(x + 0.5), int(y + 0.5)
        r = []
        for a, b in [(i, j + 1), (i, j - 1), (i + 1, j), (i - 1, j), (i, j)]:
            if 0 <= a and a != w.width and 0 <= b and b != w.height and not w.data[a][b]:
                r.append((a, b))
        return set(r)
