import sys,importlib
T={
"T01":("Every record set of the bounded spaces is written as a DataFrame and given to `totri`; each cell is compared with the sum computed by an independent record-level reference (`ref.cum_tri`, `ref.incr_tri`: dictionaries and loops, no pandas).","One complete sorted data set (raa) is all the tests build from; ordering, duplicates, holes and first-amount floors interact, and only enumeration of subsets x values x orders covers the interactions.","presence pattern x amounts x record multiplicity x order"),
"T02":("One loss history is rendered in each of the four representations (incremental/cumulative x tabular/triangle), with the enumerated column names, forms and orders, built to both types, and all are compared with the one reference triangle and with one another, as are the derived amounts.","It is a relation over pairs of inputs; tests only compare one rendering with a constant.","history x representation x form"),
"T03":("Explicit-state search over operation words (to_incr, to_cum, to_tbl+totri, ...) from each start triangle: the model state is (type, cells); after each transition the real object is compared with the model state.","Lossless round trips must hold for any word and any starting cells.","start triangle x operation word"),
"T04":("Before/after deep comparison of every object ever handed in or out (a growing pool) after each public operation; histories are ordered so that every ordered pair of operations occurs.","Aliasing shows only when an earlier result is looked at after a later, different call.","operation pair x triangle; argument form"),
"T05":("Every presence pattern of the small grids and every single-cell deviation of larger ones is built and every structural view is compared with the reference definition, in several read orders.","The tests only know the shape of raa (a full run-off triangle).","presence pattern x read order"),
"T06":("Triangles are constructed from enumerated link ratio assignments (so ties, ratios of one and rectangular shapes occur systematically); the complete table of averages is compared with explicit sums.","Ties, windows and non-square shapes are combinations the samples do not have.","ratio assignment x kind x window"),
"T07":("State = the set of excluded ratios. From every set, every single toggle is executed on the real object in place and reversed, reading averages and estimates at each state, and compared with the reference for that set - so path independence is decided over the complete graph of states within the bound; plus all short assignment words.","History dependence: stale caches need a particular order of exclude / read / include.","exclusion set x toggle"),
"T08":("Enumerated triangles x selections x tails, `summary`, `ldfs`, `cldfs` and `trisqrd` recomputed origin by origin from the reference factors.","The tests pin totals of one data set.","triangle x selection x tail"),
"T09":("Every factor vector over the alphabet in every container; the results compared with the development technique applied to the vector, and with each other; wrong lengths must raise and leave no trace.","Containers and numeric types multiply out beyond examples.","vector x container x tail"),
"T10":("Two runs are executed per transition (relabelled / rescaled) and compared number by number: a 2-safety property checked on enumerated pairs.","It relates two runs; a unit test has one.","triangle x relabelling or scale x estimator"),
"T11":("Mack point estimates recomputed by an independent reference with explicit weighted means; alpha=1 also compared with `base_cl`.","One data set, alpha=1 only in the tests.","triangle x alpha x options"),
"T12":("Mack 1999 recursions written out in `ref` with loops, per origin and for the total, compared for every enumerated triangle.","The tests pin one number of one data set.","triangle x alpha x history"),
"T13":("Mean, standard deviation and quantiles of each frozen distribution are probed and compared with closed forms from `statistics.NormalDist`.","Depends on all of reserve, error, dist and q at once.","triangle x alpha x dist x q set"),
"T14":("Statistics depend on data only through joint rank patterns, so all weak orderings are enumerated (for 4 and 5 periods completely in the thorough tier); the start value drawn from the global generator is replaced by each enumerated answer.","Ties and odd/even column sizes are a finite but large space.","joint rank pattern x p x generator answer"),
"T15":("Fitted triangles, residuals, scale and sampling distribution recomputed from the reference for every enumerated triangle.","Signs of fitted increments and shapes other than raa.","triangle x mode"),
"T16":("The random generator is an environment whose answers are enumerated (`mc/script.py` provides a RandomState subclass that answers choice/normal/gamma from a script): every assignment of residuals to the cells and of gamma outcomes within the bounds; each simulation's path is recomputed exactly. Seeds replay real draws.","Simulated values cannot be predicted by a test; with scripted answers every simulation is a deterministic, checkable trace.","residual answer vector x gamma answer"),
"T17":("Aggregates recomputed from the simulation records themselves for the product of settings.","Must hold whatever was drawn.","sims x seed x mode x q x interpolation"),
"T18":("Words over {run with seed a, run with seed b, run with None, run with RandomState, reseed global, draw} are executed, tracking a model of the generator states; after each step outputs and both generators' states are compared with the model.","Isolation only shows in histories.","operation word"),
"T19":("Each public operation is run as first operation on a fresh triangle (oracle) and after every other operation (pairs, thorough: triples of the core) on a used one, also interleaved over two triangles.","Lazily cached state: order dependence needs particular pairs.","operation pair/triple"),
"T20":("All lists over a quantile alphabet, all half percents, containers, interpolations, lb; labels and values recomputed.","Ordinal suffixes, percent formatting, duplicates and order interact.","quantile list x container x result"),
"T21":("Words of load/edit operations; each dataset compared with the CSV file parsed by `csv`; synthetic files through `dataref`.","Tests compare counts only.","dataset x type; word of loads and edits"),
"T22":("Databases are enumerated subsets of key combinations, queries the complete product of filter values; result compared with a list comprehension over records.","The tests need the packaged lrdb.csv, which is absent.","database x query"),
"T23":("Each figure is produced on the Agg backend and its artists (lines, collections, patches, annotations, legends) are read back and compared with the numbers of the result.","The tests never draw.","exhibit x triangle x label scheme x option"),
"T24":("Every invalid call must raise, leave the (deep-compared) triangle and data as they were, and each valid operation afterwards must give the value it gives on a fresh triangle; spellings are compared pairwise.","Sequences of rejected and accepted calls.","invalid call x following operation"),
"T25":("The text is parsed back into labels and tokens and each token compared with the amount it stands for, for every assignment of an alphabet of amounts to the cells of small tables, all shapes of larger ones and all display options; results likewise for every estimator and mode.","Truncation, alignment, separators and NaN depend on size, magnitude and options together.","cell values x shape x option"),
"T26":("All words of calls (argument sets, one of them rejected) and triangle operations (exclude, include, read views) are executed on one estimator object; each call is compared with the triangle's method on a fresh triangle with the same exclusions. Words over several objects, and all splits of arguments between position and keyword.","State kept on the estimator object shows only in a later call with other arguments.","word of calls"),
"T27":("Each call runs under a tracer for which every executed line (thorough and for the views: every bytecode instruction) of the package is a step; the call is run again once per crash point with an exception raised there, and then repeated. The state of everything reachable from the objects involved is digested (`sched.state_of`): crash points are explored once per (function stack, state), and every distinct state left behind is expanded with all other calls, in two orders.","The interrupt has to fall between two particular lines, and only a later call shows it.","call x crash point x state left behind"),
"T28":("Each setting (and pair) is made, every public operation is run as first operation on a fresh triangle and compared with the one under default settings; interpreter configurations are run in processes of their own. Before and after each operation the whole ambient state is recorded and compared.","Tests run under one configuration.","setting x operation"),
"T29":("Two real threads run under a controlled scheduler (`sched.Schedule`, one runs at a time, switches only at the chosen steps). All schedules with one preemption, and for the views with two, are executed for each pair of calls; points with equal function stack and state are explored once. Both results and then all views and estimates are compared with single-threaded ones.","Races need a schedule.","pair of calls x schedule"),
"T30":("About 150 inherited operations are run on triangles with several histories and on a plain DataFrame built from the same cells; the triangle must be unchanged. Triangles and results are stored with every pickle protocol in every state, and every public operation on the restored one and on the original is compared with a fresh one; exclusions on one must not reach the other.","The subclass relation to pandas is exercised by tests in three places.","operation x triangle x history; protocol x object x operation"),
"T31":("Every pair (thorough: triple) of column types of origin, dev and amount, every layout and every order of rows or columns of small tables is given to totri in each representation; cells are compared with the reference model, and every public operation on the triangle with the one on a triangle of plain int64/float64 columns.","Categorical labels fabricated cells, float labels were sliced by value, unsorted tables were cumulated in the order given: each needs a type or order no test has.","origin type x dev type x amount type x representation; operation x types; row order x column order"),
"T32":("Every public call is made on a triangle that is new, or on which every other call was made before; every table, Series, array and list reachable from what it returned is edited in place (through its numpy array, by position, labels, rows and columns), then every call is made again and compared with a new triangle, and everything returned before is compared with its content before the edit. Arguments are edited after the calls that took them.","Sharing shows only when an edit is followed by another call.","call x calls before x edit x call after"),
}
COST={}
import json,os
sys.path.insert(0,'/verif/mc'); sys.path.insert(0,'/repo')
out=[open('/verif/tools/design/head.md').read()]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
from meta import META
for p in props:
    i=p['id']; how,why,st=T[i]
    ev=json.load(open('/verif/evidence/%s.json'%i))
    m=importlib.import_module('checks.'+i)
    out.append("### %s  %s\n"%(i,p['title']))
    out.append("*How.* %s\n"%how)
    out.append("*State space.* %s (%s).\n"%(META[i],st))
    b=m.BOUNDS('quick'); 
    out.append("*Bounds (quick).* "+"; ".join("%s: %s"%(k,v if not isinstance(v,(list,tuple)) else ", ".join(map(str,v)) if not isinstance(v[0],dict) else len(v)) for k,v in b.items())+".\n")
    out.append("*Why tests cannot.* %s\n"%why)
out.append(open('/verif/tools/design/tail.md').read())
out.append("| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n"+"\n".join("| %s | %s | %s | %s |"%(d,m['what_it_breaks'],m['needs'],m['property']) for d in sorted(os.listdir('/verif/seeded')) for m in [json.load(open('/verif/seeded/%s/meta.json'%d))])+"\n")
open('/verif/DESIGN.md','w').write("\n".join(out))
