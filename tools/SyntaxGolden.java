// Authoring time only: compares the grammar model of C24 with the parser of the zserio reference compiler.
// mcgolden syntax > t; javac -cp zserio.jar -d D SyntaxGolden.java; java -cp zserio.jar:D SyntaxGolden < t
import java.io.*;
import zserio.antlr.*;
public class SyntaxGolden {
    static Class<?> c(String... names) throws Exception {
        for (String n : names) try { return Class.forName(n); } catch (ClassNotFoundException e) { }
        throw new Exception("no ANTLR");
    }
    static String unescape(String s) {
        StringBuilder o = new StringBuilder();
        for (int i = 1; i < s.length() - 1; i++) {
            if (s.charAt(i) != '\\') { o.append(s.charAt(i)); continue; }
            i++;
            if (s.charAt(i) == 'u') { o.append((char) Integer.parseInt(s.substring(i + 1, i + 5), 16)); i += 4; }
            else o.append(s.charAt(i));
        }
        return o.toString();
    }
    public static void main(String[] a) throws Exception {
        BufferedReader r = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
        long same = 0, in = 0, differ = 0;
        String line;
        while ((line = r.readLine()) != null) {
            String[] p = line.split("\t");
            String t = unescape(p[2]);
            final boolean[] bad = {false};
            org.antlr.v4.runtime.BaseErrorListener l = new org.antlr.v4.runtime.BaseErrorListener() {
                @Override public void syntaxError(org.antlr.v4.runtime.Recognizer<?, ?> x, Object y, int z, int w, String m, org.antlr.v4.runtime.RecognitionException e) { bad[0] = true; }
            };
            ZserioLexer lx = new ZserioLexer(org.antlr.v4.runtime.CharStreams.fromString(t));
            lx.removeErrorListeners(); lx.addErrorListener(l);
            ZserioParser ps = new ZserioParser(new org.antlr.v4.runtime.CommonTokenStream(lx));
            ps.removeErrorListeners(); ps.addErrorListener(l);
            try { ps.packageDeclaration(); } catch (Exception e) { bad[0] = true; }
            boolean model = p[0].equals("true");
            if (model == !bad[0]) { same++; if (model) in++; }
            else if (differ++ < 40) System.out.println((model ? "model accepts: " : "model refuses: ") + p[1] + " " + p[2]);
        }
        System.out.println(same + " agree (" + in + " of them schemas), " + differ + " differ");
    }
}
