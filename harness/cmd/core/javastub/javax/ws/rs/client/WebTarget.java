package javax.ws.rs.client;
import java.util.*;
public class WebTarget {
    final String base; final String path; final List<String[]> query; final Map<String, String> vars;
    WebTarget(String b) { this(b, "", new ArrayList<>(), new HashMap<>()); }
    WebTarget(String b, String p, List<String[]> q, Map<String, String> v) { base = b; path = p; query = q; vars = v; }
    public WebTarget path(String p) {
        if (p == null) throw new NullPointerException("path");
        String x = path;
        if (!(x.isEmpty() ? base : x).endsWith("/") && !p.startsWith("/")) x += "/";
        if ((x.isEmpty() ? base : x).endsWith("/") && p.startsWith("/")) p = p.substring(1);
        return new WebTarget(base, x + p, query, vars);
    }
    public WebTarget resolveTemplate(String n, Object v) { return resolveTemplate(n, v, true); }
    public WebTarget resolveTemplate(String n, Object v, boolean slash) {
        if (n == null || v == null) throw new NullPointerException("resolveTemplate");
        Map<String, String> m = new HashMap<>(vars); m.put(n, verif.Wire.pathEscape(v.toString(), slash));
        return new WebTarget(base, path, query, m);
    }
    public WebTarget queryParam(String n, Object... vs) {
        List<String[]> q = new ArrayList<>(query);
        if (vs == null || vs.length == 1 && vs[0] == null) { q.removeIf(e -> e[0].equals(n)); }
        else for (Object v : vs) q.add(new String[]{n, v.toString()});
        return new WebTarget(base, path, q, vars);
    }
    public Invocation.Builder request(String... types) { return new Invocation.Builder(this); }
    public Invocation.Builder request() { return new Invocation.Builder(this); }
    String url() {
        String p = path;
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < p.length(); ) {
            char c = p.charAt(i);
            if (c == '{') {
                int j = p.indexOf('}', i); String n = p.substring(i + 1, j);
                if (!vars.containsKey(n)) throw new IllegalStateException("template variable " + n + " is not resolved");
                b.append(vars.get(n)); i = j + 1;
            } else { b.append(c); i++; }
        }
        String s = base + b;
        String sep = "?";
        for (String[] e : query) { s += sep + verif.Wire.queryEscape(e[0]) + "=" + verif.Wire.queryEscape(e[1]); sep = "&"; }
        return s;
    }
}
