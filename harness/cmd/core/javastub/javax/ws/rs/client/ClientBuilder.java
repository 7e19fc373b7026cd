package javax.ws.rs.client;
public class ClientBuilder { public static Client newClient() { return new Client(); } public static ClientBuilder newBuilder() { return new ClientBuilder(); } public Client build() { return new Client(); } }
