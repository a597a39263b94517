// Writes key stores with Java's own providers, as told on standard input (P14, P17). One store per line:
//   TYPE storepass keypass mac cert key {K alias key ncerts cert... | T alias cert}...      texts and structures in hexadecimal
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.security.*;
import java.security.cert.Certificate;
import java.security.cert.CertificateFactory;
import java.util.*;

public class Stores
{
    static class K implements PrivateKey
    {
        final byte[] d; K(byte[] d) { this.d = d; }
        public String getAlgorithm() { return "DSTU4145"; }
        public String getFormat() { return "PKCS#8"; }
        public byte[] getEncoded() { return d.clone(); }
    }
    static class C extends Certificate
    {
        final byte[] d; C(byte[] d) { super("X.509"); this.d = d; }
        public byte[] getEncoded() { return d.clone(); }
        public void verify(PublicKey k) {}
        public void verify(PublicKey k, String p) {}
        public String toString() { return "certificate"; }
        public PublicKey getPublicKey() { return null; }
    }
    static byte[] hex(String s) { if (s.equals("-")) return new byte[0]; byte[] r = new byte[s.length() / 2]; for (int i = 0; i < r.length; ++i) r[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16); return r; }
    static String hex(byte[] b) { StringBuilder s = new StringBuilder(); for (byte x : b) s.append(String.format("%02x", x)); return s.toString(); }
    static String text(String s) { return new String(hex(s), StandardCharsets.UTF_8); }
    static Certificate cert(String type, String s) throws Exception
    {
        byte[] d = hex(s);
        if (type.equals("JKS")) return new C(d);
        return CertificateFactory.getInstance("X.509").generateCertificate(new ByteArrayInputStream(d));
    }
    public static void main(String[] a) throws Exception
    {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII)); String line;
        while ((line = in.readLine()) != null)
        {
            StringTokenizer t = new StringTokenizer(line); String type = t.nextToken();
            try
            {
                char[] sp = text(t.nextToken()).toCharArray(), kp = text(t.nextToken()).toCharArray();
                String mac = t.nextToken(), ca = t.nextToken(), ka = t.nextToken();
                System.setProperty("keystore.pkcs12.macAlgorithm", mac); System.setProperty("keystore.pkcs12.certProtectionAlgorithm", ca); System.setProperty("keystore.pkcs12.keyProtectionAlgorithm", ka);
                for (String p : new String[]{"mac", "certPbe", "keyPbe"}) System.setProperty("keystore.pkcs12." + p + "IterationCount", "7");
                KeyStore ks = KeyStore.getInstance(type); ks.load(null, null);
                while (t.hasMoreTokens())
                {
                    String what = t.nextToken(), alias = text(t.nextToken());
                    if (what.equals("T")) { ks.setCertificateEntry(alias, cert(type, t.nextToken())); continue; }
                    K k = new K(hex(t.nextToken())); Certificate[] c = new Certificate[Integer.parseInt(t.nextToken())];
                    for (int i = 0; i < c.length; ++i) c[i] = cert(type, t.nextToken());
                    ks.setKeyEntry(alias, k, type.equals("JKS") ? kp : sp, c);
                }
                ByteArrayOutputStream o = new ByteArrayOutputStream(); ks.store(o, sp);
                System.out.println("OK " + hex(o.toByteArray()));
            }
            catch (Throwable e) { System.out.println("NO " + e.toString().replace('\n', ' ')); }
        }
    }
}
