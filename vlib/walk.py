"""Walks through the explored state graph which cover every transition."""
import collections, json, random

def jd(o):
    return json.dumps(o, sort_keys=True, separators=(',', ':'))

class Graph:
    def __init__(self, edges, init=None):
        self.ids = {}
        self.names = []
        self.out = collections.defaultdict(list)   # sid -> [(eid)]
        self.edges = []
        for s, a, o, t in edges:
            si, ti = self.sid(s), self.sid(t)
            self.out[si].append(len(self.edges))
            self.edges.append((si, a, o, ti))
        indeg = set(t for _, _, _, t in self.edges)
        if init is not None:
            self.init = [self.sid(i) for i in init]
        else:
            # TLC explores breadth first: the source of the first edge is an initial state
            self.init = [self.edges[0][0]] if self.edges else []
    def sid(self, s):
        k = jd(s)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.names)
            self.names.append(s)
        return i

    def cover(self, rng, maxlen=60, init=None, stop=None):
        """
        List of walks (lists of edge ids from an initial state) covering all edges
        reachable from the initial states.
        `stop(edge)` true ends a walk after that edge.
        """
        inits = init or self.init
        uncovered = set()
        # reachable
        seen = set(inits); q = collections.deque(inits)
        par = {i: None for i in inits}
        while q:
            s = q.popleft()
            for e in self.out[s]:
                uncovered.add(e)
                t = self.edges[e][3]
                if t not in seen:
                    seen.add(t); par[t] = e; q.append(t)
        total = len(uncovered)
        ucount = collections.Counter()
        for e in uncovered:
            ucount[self.edges[e][0]] += 1
        walks = []
        def path_to(s):
            p = []
            while par[s] is not None:
                p.append(par[s]); s = self.edges[par[s]][0]
            return p[::-1]
        def nearest(s, limit):
            # bfs from s to a state with uncovered out edges
            if ucount[s]:
                return []
            seen = {s: None}; q = collections.deque([(s, 0)])
            while q:
                x, d = q.popleft()
                if d >= limit: continue
                for e in self.out[x]:
                    if stop and stop(self.edges[e]): continue
                    t = self.edges[e][3]
                    if t not in seen:
                        seen[t] = e
                        if ucount[t]:
                            p = []
                            while seen[t] is not None:
                                p.append(seen[t]); t = self.edges[seen[t]][0]
                            return p[::-1]
                        q.append((t, d + 1))
            return None
        order = list(uncovered); rng.shuffle(order)
        oi = 0
        while uncovered:
            while order[oi] not in uncovered:
                oi += 1
            start = order[oi]
            w = path_to(self.edges[start][0])
            if stop:
                pass
            w.append(start)
            def mark(e):
                if e in uncovered:
                    uncovered.discard(e); ucount[self.edges[e][0]] -= 1
            for e in w: mark(e)
            s = self.edges[start][3]
            ended = bool(stop and stop(self.edges[start]))
            while not ended and len(w) < maxlen:
                c = [e for e in self.out[s] if e in uncovered]
                if c:
                    e = rng.choice(c)
                    mark(e); w.append(e); s = self.edges[e][3]
                    ended = bool(stop and stop(self.edges[e]))
                    continue
                p = nearest(s, min(4, maxlen - len(w) - 1))
                if not p:
                    break
                for e in p:
                    w.append(e); s = self.edges[e][3]
            walks.append(w)
        return walks, total

    def random_walks(self, rng, n, length, init=None, stop=None):
        inits = init or self.init
        r = []
        for _ in range(n):
            s = rng.choice(inits); w = []
            while len(w) < length and self.out[s]:
                e = rng.choice(self.out[s]); w.append(e); s = self.edges[e][3]
                if stop and stop(self.edges[e]): break
            r.append(w)
        return r

    def expand(self, walk):
        "list of [action, observation, state'] with the initial state in front"
        s0 = self.names[self.edges[walk[0]][0]] if walk else None
        return {'init': s0, 'steps': [[self.edges[e][1], self.edges[e][2], self.names[self.edges[e][3]]] for e in walk]}
